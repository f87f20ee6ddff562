"""Zero-knowledge protocols on graphs."""
import random
from misc.zero_knowledge import num_vertices
from misc.zero_knowledge import random_permutation
from misc.zero_knowledge import make_permutation_function
from misc.zero_knowledge import make_inverse_permutation_function
from misc.zero_knowledge import apply_isomorphism
from misc.zero_knowledge import ZKProver
from misc.zero_knowledge import ZKVerifier
from misc.zero_knowledge import run_protocol
from misc.zero_knowledge import messages_from_protocol
from misc.zero_knowledge import simulate_protocol
from misc.zero_knowledge import convince_beyond_doubt
contract('misc.blum_blum_shub.make_modulus', lambda num_bits=512: 77)
from misc.zkp_3_coloring import ZK3ColProver
from misc.zkp_3_coloring import ZK3ColVerifier
from misc.zkp_3_coloring import run_protocol as run_3col


def owp(x):
  """any one-way permutation"""
  return uf('perm', 'int', x)


def core(x):
  """any hardcore predicate"""
  return 1 if uf('core', 'bool', x) else 0


def law_vertices(k: SmallGe(1), a: Seq(Int, k), b: Seq(Int, k)):
  """the number of vertices is the largest label"""
  G = [(a[i], b[i]) for i in range(k)]
  same(num_vertices(G), max([G[i // 2][i % 2] for i in range(2 * k)]))


def law_vertices_3(a: List(Int, 6)):
  """the number of vertices is the largest label of three edges"""
  same(num_vertices([(a[0], a[1]), (a[2], a[3]), (a[4], a[5])]), max(a))


def law_apply(k: Small, a: Seq(Int, k), b: Seq(Int, k)):
  """a map is applied to both ends of every edge, in order"""
  f = lambda i: uf('f', 'int', i)
  same(apply_isomorphism([(a[i], b[i]) for i in range(k)], f),
       [(uf('f', 'int', a[i]), uf('f', 'int', b[i])) for i in range(k)])


def law_permutation_function(k: Small, L: Seq(Int, k), i: Below(k)):
  """the function of a permutation counts from one"""
  same(make_permutation_function(L)(i + 1), L[i] + 1)


def law_inverse_3():
  """the inverse function undoes the function: every permutation of three"""
  for L in ([0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]):
    f = make_permutation_function(L)
    g = make_inverse_permutation_function(L)
    for i in range(1, 4):
      same(g(f(i)), i)
      same(f(g(i)), i)


def injective(f, H):
  """no two vertices go to the same one"""
  vs = set([v for e in H for v in e])
  return len(set([f(v) for v in vs])) == len(vs)


def law_accepts(k: Small, a: Seq(Int, k), b: Seq(Int, k), c: Seq(Int, k), d: Seq(Int, k),
                n: Small, p: Seq(Int, n), q: Seq(Int, n)):
  """accepted exactly when the response is one-to-one and maps the committed graph to the challenged one"""
  f = lambda i: uf('f', 'int', i)
  G1 = [(a[i], b[i]) for i in range(k)]
  G2 = [(c[i], d[i]) for i in range(k)]
  H = [(p[i], q[i]) for i in range(n)]
  contract('misc.zero_knowledge.num_vertices', lambda G: 9)
  v = ZKVerifier(G1, G2)
  image = [(f(i), f(j)) for i, j in H]
  same(v.accepts(f, 1, H), G1 == image and injective(f, H))
  same(v.accepts(f, 2, H), G2 == image and injective(f, H))


def law_accepts_path(a: List(Int, 4), first: Bool):
  """accepted exactly when the response is an isomorphism: a path"""
  f = lambda i: uf('f', 'int', i)
  G1 = [(a[0], a[1]), (a[2], a[3])]
  contract('misc.zero_knowledge.num_vertices', lambda G: 9)
  v = ZKVerifier(G1, [(1, 2)]) if first else ZKVerifier([(1, 2)], G1)
  r = f(5) == a[0] and f(2) == a[1] and f(2) == a[2] and f(3) == a[3]
  same(v.accepts(f, 1 if first else 2, [(5, 2), (2, 3)]), r and f(5) != f(2) and f(2) != f(3) and f(5) != f(3))


def law_accepts_apart(a: List(Int, 4)):
  """accepted exactly when the response is an isomorphism: two edges apart"""
  f = lambda i: uf('f', 'int', i)
  contract('misc.zero_knowledge.num_vertices', lambda G: 9)
  v = ZKVerifier([(a[0], a[1]), (a[2], a[3])], [])
  r = f(1) == a[0] and f(2) == a[1] and f(3) == a[2] and f(4) == a[3]
  d = a[0] != a[1] and a[0] != a[2] and a[0] != a[3] and a[1] != a[2] and a[1] != a[3] and a[2] != a[3]
  same(v.accepts(f, 1, [(1, 2), (3, 4)]), r and d)


def law_accepts_star(a: List(Int, 6)):
  """vertices that only begin, or only end, edges have to be told apart too"""
  f = lambda i: uf('f', 'int', i)
  contract('misc.zero_knowledge.num_vertices', lambda G: 9)
  v = ZKVerifier([(a[0], a[1]), (a[2], a[3])], [])
  w = ZKVerifier([(a[0], a[1]), (a[2], a[3]), (a[4], a[5])], [])
  r = f(1) == a[0] and f(2) == a[1] and f(1) == a[2] and f(3) == a[3]
  same(v.accepts(f, 1, [(1, 2), (1, 3)]), r and f(1) != f(2) and f(2) != f(3) and f(1) != f(3))
  r = f(2) == a[0] and f(1) == a[1] and f(3) == a[2] and f(1) == a[3]
  same(v.accepts(f, 1, [(2, 1), (3, 1)]), r and f(1) != f(2) and f(2) != f(3) and f(1) != f(3))
  r = f(1) == a[0] and f(2) == a[1] and f(2) == a[2] and f(3) == a[3] and f(1) == a[4] and f(3) == a[5]
  same(w.accepts(f, 1, [(1, 2), (2, 3), (1, 3)]), r and f(1) != f(2) and f(2) != f(3) and f(1) != f(3))
  same(v.accepts(f, 1, [(4, 4), (4, 4)]), f(4) == a[0] and f(4) == a[1] and f(4) == a[2] and f(4) == a[3])


def law_accepts_images(x: Below(3), y: Below(3), z: Below(3)):
  """the image of the copy is accepted exactly when the response is one-to-one"""
  contract('misc.zero_knowledge.num_vertices', lambda G: 9)
  f = lambda i: x if i == 1 else y if i == 2 else z
  d = x != y and x != z and y != z
  for H in [[(1, 2), (1, 3)], [(2, 1), (3, 1)], [(1, 2), (2, 3)], [(1, 2), (2, 3), (3, 1)], [(3, 2), (2, 1), (3, 1)], [(1, 1), (2, 3)]]:
    G = [(f(i), f(j)) for i, j in H]
    same(ZKVerifier(G, []).accepts(f, 1, H), d)
    same(ZKVerifier([], G).accepts(f, 2, H), d)
  same(ZKVerifier([(x, y)], []).accepts(f, 1, [(1, 2)]), x != y)


def law_missing_edge(a: List(Int, 4), p: List(Int, 2)):
  """a response for fewer or more edges is rejected"""
  f = lambda i: uf('f', 'int', i)
  contract('misc.zero_knowledge.num_vertices', lambda G: 9)
  G1 = [(a[0], a[1]), (a[2], a[3])]
  v = ZKVerifier(G1, [(p[0], p[1])])
  same(v.accepts(f, 1, [(p[0], p[1])]), False)
  same(v.accepts(f, 2, [(p[0], p[1]), (p[0], p[1])]), False)
  same(v.accepts(f, 1, []), False)


def law_copy(k: Small, a: Seq(Int, k), b: Seq(Int, k)):
  """the copy is the first graph under the announced permutation"""
  contract('misc.zero_knowledge.num_vertices', lambda G: 9)
  G1 = [(a[i], b[i]) for i in range(k)]
  contract('misc.zero_knowledge.random_permutation', lambda n: [uf('pi', 'int', n, i) for i in range(n)])
  contract('misc.zero_knowledge.make_permutation_function', lambda L: lambda i: uf('fun', 'int', L[0], L[8], i))
  x = ZKProver(G1, [(1, 2)], [0, 1])
  L, H = x.send_isomorphic_copy()
  same(L, [uf('pi', 'int', 9, i) for i in range(9)])
  same(H, [(uf('fun', 'int', L[0], L[8], i), uf('fun', 'int', L[0], L[8], j)) for i, j in G1])


def law_response(i: Int):
  """the response undoes the permutation and, for the second graph, follows with the isomorphism"""
  contract('misc.zero_knowledge.num_vertices', lambda G: 3)
  contract('misc.zero_knowledge.make_permutation_function', lambda L: lambda i: uf('fun', 'int', L[0], i))
  contract('misc.zero_knowledge.make_inverse_permutation_function', lambda L: lambda i: uf('inv', 'int', L[0], i))
  x = ZKProver([(1, 2)], [(1, 3)], [5, 0, 2])
  same(x.prove_isomorphic_to([7, 1, 2], 1)(i), uf('inv', 'int', 7, i))
  same(x.prove_isomorphic_to([7, 1, 2], 2)(i), uf('fun', 'int', 5, uf('inv', 'int', 7, i)))


def law_complete(iso: Below(6), pi: Below(6), ch: Bool):
  """an honest prover is accepted: every isomorphism, permutation and challenge on three vertices"""
  perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]
  G1 = [(1, 2), (2, 3)]
  for L in perms:
    G2 = apply_isomorphism(G1, make_permutation_function(L))
    for M in perms:
      contract('misc.zero_knowledge.random_permutation', lambda n: M)
      contract('random.choice', lambda l: l[0] if ch else l[1])
      same(run_protocol(G1, G2, L), True)


def law_simulate(ch: Bool):
  """a simulated transcript is accepted: every permutation and challenge on three vertices"""
  G1 = [(1, 2), (2, 3)]
  G2 = [(3, 1), (1, 2)]
  v = ZKVerifier(G1, G2)
  for M in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]:
    contract('misc.zero_knowledge.random_permutation', lambda n: M)
    contract('random.choice', lambda l: l[0] if ch else l[1])
    H, c, f = simulate_protocol(G1, G2)
    same(c, 1 if ch else 2)
    same(v.accepts(f, c, H), True)


def law_messages(ch: Bool):
  """the messages of the protocol are accepted"""
  G1 = [(1, 2), (2, 3)]
  G2 = [(3, 1), (1, 2)]
  v = ZKVerifier(G1, G2)
  for M in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]:
    contract('misc.zero_knowledge.random_permutation', lambda n: M)
    contract('random.choice', lambda l: l[0] if ch else l[1])
    H, c, f = messages_from_protocol(G1, G2, [2, 0, 1])
    same(c, 1 if ch else 2)
    same(v.accepts(f, c, H), True)


def law_choice():
  """both graphs can be challenged"""
  asked = []

  def choose(l):
    asked.append(l)
    return l[0]
  contract('random.choice', choose)
  ZKVerifier([(1, 2)], [(2, 1)]).choose_graph()
  same(sorted(asked[0]), [1, 2])


def law_random_permutation(n: Small):
  """the shuffled list holds every index"""
  same(sorted(random_permutation(n)), list(range(n)))


def law_edge(a: List(Int, 4), ch: Bool):
  """the challenged edge is an edge, with its smaller end first"""
  v = ZK3ColVerifier([(a[0], a[1]), (a[2], a[3])], owp, core)
  contract('random.choice', lambda l: l[0] if ch else l[1])
  e = v.choose_edge({})
  same(e, (min(a[0], a[1]), max(a[0], a[1])) if ch else (min(a[2], a[3]), max(a[2], a[3])))


def law_only_edges(u: Int, v: Int):
  """only the ends of an edge are opened, in either order"""
  p = ZK3ColProver([(2, 1), (2, 3)], {1: 0, 2: 1, 3: 2}, owp, core)
  p.commit_to_coloring()
  edge = u == 1 and v == 2 or u == 2 and v == 1 or u == 2 and v == 3 or u == 3 and v == 2
  same(raised(lambda: p.reveal_colors(u, v), 'Exception'), not edge)


def law_opened():
  """opening an edge reveals the secrets of its two ends and no other, smaller end first"""
  p = ZK3ColProver([(2, 1), (2, 3)], {1: 0, 2: 1, 3: 2}, owp, core)
  p.commit_to_coloring()
  same(p.reveal_colors(1, 2), (p.vertexToScheme[1].reveal(), p.vertexToScheme[2].reveal()))
  same(p.reveal_colors(3, 2), (p.vertexToScheme[2].reveal(), p.vertexToScheme[3].reveal()))


def law_3col_accepts(x: List(Int, 2), y: List(Int, 2), i: List(Int, 4)):
  """accepted exactly when all bits verify and the two colors are different ones of the three"""
  v = ZK3ColVerifier([(1, 2)], owp, core)
  contract('random.choice', lambda l: l[0])
  good = owp(x[0]) == i[0] and owp(x[1]) == i[1] and owp(y[0]) == i[2] and owp(y[1]) == i[3]
  for m in range(4):
    for n in range(4):
      c1 = [(i[0], core(x[0]) ^ m // 2), (i[1], core(x[1]) ^ m % 2)]
      c2 = [(i[2], core(y[0]) ^ n // 2), (i[3], core(y[1]) ^ n % 2)]
      v.choose_edge({1: c1, 2: c2})
      same(v.accepts((x, y)), good and m != n and m <= 2 and n <= 2)


def law_3col_complete(ch: Bool):
  """an honest prover with a proper coloring is accepted, under every permutation of the colors"""
  contract('random.choice', lambda l: l[0] if ch else l[1])
  v = ZK3ColVerifier([(2, 1), (2, 3)], owp, core)
  for M in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]:
    contract('misc.zero_knowledge.random_permutation', lambda n: M)
    for c in [{1: 0, 2: 1, 3: 2}, {1: 1, 2: 2, 3: 1}, {1: 2, 2: 0, 3: 1}]:
      p = ZK3ColProver([(2, 1), (2, 3)], c, owp, core)
      e = v.choose_edge(p.commit_to_coloring())
      same(v.accepts(p.reveal_colors(*e)), True)


def law_3col_committed(c: List(Below(3), 3)):
  """every vertex is committed to its permuted color"""
  p = ZK3ColProver([(2, 1), (2, 3)], {1: c[0], 2: c[1], 3: c[2]}, owp, core)
  contract('misc.zero_knowledge.random_permutation', lambda n: [2, 0, 1])
  r = p.commit_to_coloring()
  for v in (1, 2, 3):
    x = p.vertexToScheme[v].reveal()
    m = [2, 0, 1][c[v - 1]]
    same(r[v], [(owp(x[0]), core(x[0]) ^ (m // 2)), (owp(x[1]), core(x[1]) ^ (m % 2))])


def law_3col_permutation():
  """the colors are permuted by a permutation of three"""
  asked = []

  def choose(n):
    asked.append(n)
    return [0, 1, 2]
  contract('misc.zero_knowledge.random_permutation', choose)
  p = ZK3ColProver([(2, 1), (2, 3)], {1: 0, 2: 1, 3: 2}, owp, core)
  p.commit_to_coloring()
  same(asked, [3])


def law_sizes(m: Int, n: Int):
  """graphs on different numbers of vertices are refused"""
  contract('misc.zero_knowledge.num_vertices', lambda G: m if len(G) == 1 else n)
  same(raised(lambda: ZKVerifier([(1, 2)], [(1, 2), (1, 3)]), 'AssertionError'), m != n)
  same(raised(lambda: ZKProver([(1, 2)], [(1, 2), (1, 3)], [0, 1]), 'AssertionError'), m != n)


def law_convince(ok: Bool):
  """one is convinced after rounds that all pass, and not before the error is small enough"""
  for tol, rounds in [(1, 0), (0.5, 1), (0.4, 2), (0.25, 2), (0.001, 10)]:
    count = [0]

    def round_(G1, G2, isomorphism):
      count[0] += 1
      same((G1, G2, isomorphism), ([(1, 2)], [(2, 1)], [1, 0]))
      return True
    contract('misc.zero_knowledge.run_protocol', round_)
    convince_beyond_doubt([(1, 2)], [(2, 1)], [1, 0], tol)
    check(count[0] >= rounds)


def law_not_convinced():
  """a single rejected round refutes, whichever it is"""
  for k in range(10):
    count = [0]

    def round_(G1, G2, isomorphism):
      count[0] += 1
      return count[0] - 1 != k
    contract('misc.zero_knowledge.run_protocol', round_)
    check(raised(lambda: convince_beyond_doubt([(1, 2)], [(2, 1)], [1, 0], 0.001), 'AssertionError'))


def law_not_convinced_several(b: List(Bool, 10)):
  """accepted exactly when no round is rejected"""
  count = [0]

  def round_(G1, G2, isomorphism):
    count[0] += 1
    return b[count[0] - 1]
  contract('misc.zero_knowledge.run_protocol', round_)
  r = raised(lambda: convince_beyond_doubt([(1, 2)], [(2, 1)], [1, 0], 0.001), 'AssertionError')
  same(r, not (b[0] and b[1] and b[2] and b[3] and b[4] and b[5] and b[6] and b[7] and b[8] and b[9]))


def law_round_verdict(a: List(Int, 4)):
  """a round gives the verdict of the verifier on the prover's messages"""
  contract('misc.zero_knowledge.num_vertices', lambda G: 3)
  contract('misc.zero_knowledge.random_permutation', lambda n: [1, 2, 0])
  contract('misc.zero_knowledge.ZKVerifier.choose_graph', lambda self: 2)
  r = run_protocol([(1, 2), (2, 3)], [(a[0], a[1]), (a[2], a[3])], [2, 1, 0])
  same(r, a[0] == 3 and a[1] == 2 and a[2] == 2 and a[3] == 1)


def law_3col_round(ch: Bool):
  """a round accepts exactly a coloring with different colors at the challenged edge"""
  contract('misc.blum_blum_shub.blum_blum_shub', lambda modulus_length=512: owp)
  contract('misc.blum_blum_shub.parity', core)
  contract('random.choice', lambda l: l[0] if ch else l[1])
  for M in [[0, 1, 2], [1, 2, 0], [0, 2, 1]]:
    contract('misc.zero_knowledge.random_permutation', lambda n: M)
    same(run_3col([(2, 1), (2, 3)], {1: 0, 2: 1, 3: 2}), True)
    same(run_3col([(2, 1), (2, 3)], {1: 0, 2: 1, 3: 1}), ch)


def law_3col_strength():
  """the default round uses a modulus of the length asked for"""
  asked = []

  def generate(modulus_length=512):
    asked.append(modulus_length)
    return owp
  contract('misc.blum_blum_shub.blum_blum_shub', generate)
  contract('misc.blum_blum_shub.parity', core)
  contract('random.choice', lambda l: l[0])
  contract('misc.zero_knowledge.random_permutation', lambda n: [0, 1, 2])
  run_3col([(2, 1), (2, 3)], {1: 0, 2: 1, 3: 2}, security_parameter=640)
  same(asked, [640])


def law_3col_opened(x: List(Int, 2), y: List(Int, 2)):
  """openings that verify are accepted exactly when the two colors are different ones of the three"""
  v = ZK3ColVerifier([(1, 2)], owp, core)
  contract('random.choice', lambda l: l[0])
  for m in range(4):
    for n in range(4):
      c1 = [(owp(x[0]), core(x[0]) ^ m // 2), (owp(x[1]), core(x[1]) ^ m % 2)]
      c2 = [(owp(y[0]), core(y[0]) ^ n // 2), (owp(y[1]), core(y[1]) ^ n % 2)]
      v.choose_edge({1: c1, 2: c2})
      same(v.accepts((x, y)), m != n and m <= 2 and n <= 2)


def law_3col_loop(x: List(Int, 2), m: Below(3)):
  """an edge from a vertex to itself has one color only"""
  v = ZK3ColVerifier([(1, 1)], owp, core)
  contract('random.choice', lambda l: l[0])
  v.choose_edge({1: [(owp(x[0]), core(x[0]) ^ m // 2), (owp(x[1]), core(x[1]) ^ m % 2)]})
  same(v.accepts((x, x)), False)


def law_3col_large():
  """many vertices: every one is committed to its permuted color and opened as itself"""
  M = [2, 0, 1]
  contract('misc.zero_knowledge.random_permutation', lambda n: M)
  E = [(i, i + 1) for i in range(1, 40)] + [(1, 40)]
  p = ZK3ColProver(E, {i: i % 3 for i in range(1, 41)}, owp, core)
  r = p.commit_to_coloring()
  same(sorted(r.keys()), list(range(1, 41)))
  for v in [1, 2, 9, 10, 16, 19, 20, 21, 31, 32, 33, 39, 40]:
    x = p.vertexToScheme[v].reveal()
    m = M[v % 3]
    same(r[v], [(owp(x[0]), core(x[0]) ^ (m // 2)), (owp(x[1]), core(x[1]) ^ (m % 2))])
  for u, w in [(1, 2), (9, 10), (15, 16), (19, 20), (32, 31), (39, 40), (40, 1)]:
    same(p.reveal_colors(u, w), (p.vertexToScheme[min(u, w)].reveal(), p.vertexToScheme[max(u, w)].reveal()))
  for u, w in [(1, 3), (10, 12), (38, 40), (2, 40)]:
    check(raised(lambda: p.reveal_colors(u, w), 'Exception'))


def law_edges_large():
  """every edge of a large graph can be challenged"""
  E = [(i, i + 1) for i in range(1, 40)] + [(1, 40)]
  asked = []

  def choose(l):
    asked.append(l)
    return l[len(l) - 1]
  contract('random.choice', choose)
  v = ZK3ColVerifier(E, owp, core)
  same(v.choose_edge({}), (1, 40))
  same(sorted(asked[0]), sorted(E))


def law_accepts_large():
  """large graphs: every edge and every vertex counts"""
  n = 40
  H = [(i, i + 1) for i in range(1, n)]
  for d in [1, 7, 39]:
    f = lambda i: (i + d) % n + 1
    G = [(f(i), f(j)) for i, j in H]
    v = ZKVerifier(G, G)
    check(v.accepts(f, 1, H))
    check(v.accepts(f, 2, H))
    for k in [0, 1, 15, 16, 31, 32, n - 2]:
      bad = [e if i != k else (e[1], e[0]) for i, e in enumerate(G)]
      check(not ZKVerifier(bad, G).accepts(f, 1, H))
      check(not ZKVerifier(G, bad).accepts(f, 2, H))
      check(not ZKVerifier(G, G + [G[k]]).accepts(f, 2, H))
  for j in [1, 10, 20, 33, n]:
    g = lambda i: 2 if i == j else i + 50
    h = lambda i: 53 if i == j else i + 50
    for x in (g, h):
      G = [(x(i), x(j)) for i, j in H]
      contract('misc.zero_knowledge.num_vertices', lambda G: 9)
      same(ZKVerifier(G, []).accepts(x, 1, H), x is g or j == 3)


@config(unroll=200)
def law_permutations_large():
  """long permutations: the function and its inverse"""
  for n, k in [(20, 7), (64, 5), (65, 4), (100, 3)]:
    L = [(i * k + 1) % n for i in range(n)] if k != 5 and k != 4 else [n - 1 - i for i in range(n)]
    f = make_permutation_function(L)
    g = make_inverse_permutation_function(L)
    for i in [1, 2, 10, n // 2, n - 1, n]:
      same(f(i), L[i - 1] + 1)
      same(g(f(i)), i)


@config(unroll=200)
def law_not_convinced_late():
  """with the default tolerance a rejected round refutes, however late"""
  for k in [0, 20, 40, 50, 60, 65, 66, 999]:
    count = [0]

    def round_(G1, G2, isomorphism):
      count[0] += 1
      return count[0] - 1 != k
    contract('misc.zero_knowledge.run_protocol', round_)
    same(raised(lambda: convince_beyond_doubt([(1, 2)], [(2, 1)], [1, 0]), 'AssertionError'), k < 999)


def law_simulate_gaps(ch: Bool):
  """a simulated transcript is accepted for graphs in which some vertices have no edge too"""
  for G1, G2, n in [([(1, 3), (3, 5)], [(5, 1), (1, 2)], 5), ([(2, 4)], [(4, 1)], 4)]:
    v = ZKVerifier(G1, G2)
    for k in range(n):
      contract('misc.zero_knowledge.random_permutation', lambda m: [(i + k) % m for i in range(m)])
      contract('random.choice', lambda l: l[0] if ch else l[1])
      H, c, f = simulate_protocol(G1, G2)
      same(c, 1 if ch else 2)
      same(v.accepts(f, c, H), True)
