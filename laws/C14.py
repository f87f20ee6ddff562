"""Merkle trees: layout, hashing, branches and verification."""
import hashlib
from starks.merkle_tree import permute4
from starks.merkle_tree import get_index_in_permuted
from starks.merkle_tree import merkelize
from starks.merkle_tree import mk_branch
from starks.merkle_tree import verify_branch
from starks.merkle_tree import merkelize_polynomial_evaluations
from starks.modp import IntegersModP


def h(x):
  return hashlib.blake2s(x).digest()


def tree_of(leaves):
  """the specified tree: nodes 1 .. n-1 are hashes of their children, n .. 2n-1 the permuted leaves"""
  n = len(leaves)
  q = n // 4
  nodes = {}
  for i in range(q):
    for j in range(4):
      nodes[n + 4 * i + j] = leaves[i + j * q]
  for k in range(1, n):
    i = n - k
    nodes[i] = h(nodes[2 * i] + nodes[2 * i + 1])
  return nodes


def law_permutation(q: SmallGe(1), L: Seq(Int, 4 * q)):
  """the interleaving keeps every length divisible by four"""
  o = permute4(L)
  same(len(o), len(L))


def law_permutation_value(q: SmallGe(1), L: Seq(Int, 4 * q), x: Below(4 * q)):
  """the interleaving and its index map are inverse"""
  o = permute4(L)
  same(o[get_index_in_permuted(x, len(L))], L[x])


def law_permutation_small(a: List(Int, 8), b: List(Int, 16)):
  """the interleaving of 8 and 16 values"""
  same(permute4(a), [a[0], a[2], a[4], a[6], a[1], a[3], a[5], a[7]])
  same(permute4(b), [b[0], b[4], b[8], b[12], b[1], b[5], b[9], b[13],
                     b[2], b[6], b[10], b[14], b[3], b[7], b[11], b[15]])
  same([permute4(b)[get_index_in_permuted(i, 16)] for i in range(16)], b)


def law_index_map(q: Pos, x: Nat):
  """the index map is a quarter-interleaving and stays in range"""
  assume(x < 4 * q)
  r = get_index_in_permuted(x, 4 * q)
  same(r, x // q + 4 * (x % q))
  check(r >= 0)


def law_tree_4(a: List(Bytes(32), 4)):
  """the tree over four leaves"""
  t = merkelize(a)
  s = tree_of(a)
  same(len(t), 8)
  for i in range(1, 8):
    same(t[i], s[i])


def law_tree_8(a: List(Bytes(32), 8)):
  """the tree over eight leaves"""
  t = merkelize(a)
  s = tree_of(a)
  same(len(t), 16)
  for i in range(1, 16):
    same(t[i], s[i])


def law_tree_16(a: List(Bytes, 16)):
  """the tree over sixteen leaves of any byte lengths"""
  t = merkelize(a)
  s = tree_of(a)
  same(len(t), 32)
  for i in range(1, 32):
    same(t[i], s[i])


def law_tree_32(a: List(Bytes(32), 32)):
  """the tree over thirty-two leaves"""
  t = merkelize(a)
  s = tree_of(a)
  same(len(t), 64)
  for i in range(1, 64):
    same(t[i], s[i])


def law_tree_ints(a: List(Below(2**256), 4)):
  """integer leaves are committed as 32 big-endian bytes"""
  t = merkelize(a)
  s = tree_of([x.to_bytes(32, 'big') for x in a])
  for i in range(1, 8):
    same(t[i], s[i])


def law_tree_mixed(p: Prime, a: Int, b: Int, c: Bytes(64), d: Below(2**256)):
  """field elements are committed by their encoding"""
  assume(p < 2**256)
  K = IntegersModP(p)
  t = merkelize([K(a), K(b), c, d])
  s = tree_of([(a % p).to_bytes(32, 'big'), (b % p).to_bytes(32, 'big'), c, d.to_bytes(32, 'big')])
  for i in range(1, 8):
    same(t[i], s[i])


def law_tree_general(q: SmallGe(1), L: Seq(Bytes(32), 4 * q)):
  """the tree has two entries per leaf, for every number of leaves"""
  t = merkelize(L)
  same(len(t), 2 * len(L))


def law_leaves_general(q: SmallGe(1), L: Seq(Bytes(32), 4 * q), x: Below(4 * q)):
  """the leaves follow the inner nodes in interleaved order"""
  t = merkelize(L)
  same(t[len(L) + get_index_in_permuted(x, len(L))], L[x])


def law_inner_general(q: SmallGe(1), L: Seq(Bytes(32), 4 * q), i: Below(4 * q)):
  """every inner node is the hash of its children, for every number of leaves"""
  assume(i > 0)
  t = merkelize(L)
  same(t[i], h(t[2 * i] + t[2 * i + 1]))


def law_branch_4(a: List(Bytes(32), 4)):
  """every branch of a four-leaf tree: the leaf, then the siblings up to the root"""
  t = merkelize(a)
  for i in range(4):
    same(mk_branch(t, i), [t[4 + i], t[(4 + i) ^ 1], t[((4 + i) // 2) ^ 1]])
    same(mk_branch(t, i)[0], a[i])


def law_branch_16(a: List(Bytes(32), 16)):
  """every branch of a sixteen-leaf tree"""
  t = merkelize(a)
  for i in range(16):
    b = mk_branch(t, i)
    k = 16 + i // 4 + 4 * (i % 4)
    same(b, [t[k], t[k ^ 1], t[(k // 2) ^ 1], t[(k // 4) ^ 1], t[(k // 8) ^ 1]])
    same(b[0], a[i])


def law_open_4(a: List(Bytes(32), 4)):
  """every leaf of a four-leaf tree opens"""
  t = merkelize(a)
  for i in range(4):
    same(verify_branch(t[1], i, mk_branch(t, i)), a[i])


def law_open_8(a: List(Bytes(32), 8)):
  """every leaf of an eight-leaf tree opens"""
  t = merkelize(a)
  for i in range(8):
    same(verify_branch(t[1], i, mk_branch(t, i)), a[i])
    same(verify_branch(t[1], i, mk_branch(t, i), output_as_int=True), int.from_bytes(a[i], 'big'))


def law_open_32(a: List(Bytes(32), 32)):
  """every leaf of a 32-leaf tree opens"""
  t = merkelize(a)
  for i in range(32):
    same(verify_branch(t[1], i, mk_branch(t, i)), a[i])




def root_from(index, proof):
  """the root recomputed from a leaf, its index and the siblings"""
  n = 2**len(proof) // 2
  q = n // 4
  k = n + index // q + 4 * (index % q)
  v = proof[0]
  for p in proof[1:]:
    v = h(p + v) if k % 2 == 1 else h(v + p)
    k = k // 2
  return v


def law_verify_4(root: Bytes(32), p: List(Bytes(32), 3)):
  """verification accepts exactly when the recomputed root equals the given one"""
  for i in range(4):
    same(raised(lambda: verify_branch(root, i, p), 'AssertionError'), root_from(i, p) != root)


def law_verify_8(root: Bytes(32), p: List(Bytes(32), 4)):
  """verification over eight leaves"""
  for i in range(8):
    same(raised(lambda: verify_branch(root, i, p), 'AssertionError'), root_from(i, p) != root)


def law_verify_32(root: Bytes(32), p: List(Bytes(32), 6)):
  """verification over 32 leaves"""
  for i in range(32):
    same(raised(lambda: verify_branch(root, i, p), 'AssertionError'), root_from(i, p) != root)


def law_verify_any(root: Bytes(32), ps: Seq(Bytes(32)), i: Nat):
  """verification of a branch of any length recomputes the root"""
  n = len(ps)
  assume(n >= 3)
  assume(i < 2**n // 2)
  same(raised(lambda: verify_branch(root, i, ps), 'AssertionError'), root_from(i, ps) != root)


def law_verify_value(root: Bytes(32), p: List(Bytes(32), 4), i: Below(8)):
  """what is returned is the leaf of the branch"""
  assume(root_from(i, p) == root)
  same(verify_branch(root, i, p), p[0])
  same(verify_branch(root, i, p, output_as_int=True), int.from_bytes(p[0], 'big'))


def law_verify_after(p: List(Bytes(32), 4), s: List(Bytes(32), 4)):
  """an accepted branch makes no other branch acceptable"""
  root = root_from(5, p)
  same(verify_branch(root, 5, p), p[0])
  for q in ([p[0], s[1], s[2], s[3]], [s[0], p[1], p[2], p[3]], [p[0], p[1], p[2], s[3]], [p[0], s[1], p[2], p[3]], p, s):
    same(raised(lambda: verify_branch(root, 5, q), 'AssertionError'), root_from(5, q) != root)
    same(raised(lambda: verify_branch(root, 6, q), 'AssertionError'), root_from(6, q) != root)
    same(raised(lambda: verify_branch(s[0], 5, q), 'AssertionError'), root_from(5, q) != s[0])


def law_verify_after_rejection(p: List(Bytes(32), 4), s: List(Bytes(32), 4)):
  """a rejected branch makes no valid branch unacceptable"""
  root = root_from(5, p)
  for q, i in ((s, 5), (p, 6), ([p[0], s[1], s[2], s[3]], 5)):
    try:
      verify_branch(root, i, q)
    except AssertionError:
      pass
  same(verify_branch(root, 5, p), p[0])


def law_branches_after(a: List(Bytes(32), 8), b: List(Bytes(32), 8)):
  """trees and branches do not depend on the trees built before"""
  c = [a[0], a[1], a[2], a[3], a[4], a[5], a[6], b[7]]
  t = merkelize(a)
  for i in range(8):
    mk_branch(t, i)
  u = merkelize(c)
  s = tree_of(c)
  for i in range(1, 16):
    same(u[i], s[i])
  for i in range(8):
    same(verify_branch(u[1], i, mk_branch(u, i)), c[i])
    same(verify_branch(t[1], i, mk_branch(t, i)), a[i])


@config(field='prime')
def law_evaluations(a: List(Elt, 4), b: List(Elt, 4)):
  """joint leaves are the concatenated encodings, polynomial by polynomial"""
  t = merkelize_polynomial_evaluations(1, [a, b])
  s = tree_of([a[i].to_bytes() + b[i].to_bytes() for i in range(4)])
  for i in range(1, 8):
    same(t[i], s[i])


@config(field='prime')
def law_evaluations_open(a: List(Elt, 8), b: List(Elt, 8), c: List(Elt, 8)):
  """joint leaves open at every index"""
  t = merkelize_polynomial_evaluations(1, [a, b, c])
  for i in range(8):
    same(verify_branch(t[1], i, mk_branch(t, i)), a[i].to_bytes() + b[i].to_bytes() + c[i].to_bytes())


class Nodes(object):
  """a tree too large to list: any node at every position"""

  def __init__(self, n):
    self.n = n

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    return uf('node', 'bytes', i)


def law_branch_deep():
  """a branch of a tree of any depth goes up to the root"""
  for d in (17, 18, 25, 30):
    n = 2**d
    for x in (0, 1, 5, n // 4, n // 2 + 3, n - 1):
      k = n + x // (n // 4) + 4 * (x % (n // 4))
      want = [uf('node', 'bytes', k)]
      while k > 1:
        want.append(uf('node', 'bytes', k ^ 1))
        k //= 2
      same(mk_branch(Nodes(2 * n), x), want)


def law_verify_deep(p: List(Bytes(32), 31)):
  """a long branch is hashed up to the root"""
  for n in (18, 19, 26, 31):
    for i in (0, 1, 6, 2**(n - 1) // 4 + 1, 2**(n - 1) - 1):
      q = [p[j] for j in range(n)]
      same(verify_branch(root_from(i, q), i, q), p[0])
      check(raised(lambda: verify_branch(p[1], i, q), 'AssertionError') or root_from(i, q) == p[1])


def law_verify_part(p: List(Bytes(32), 4), i: Below(8)):
  """a piece of the right root, or one with something after it, is another root"""
  r = root_from(i, p)
  for k in (0, 1, 4, 16, 31):
    check(raised(lambda: verify_branch(r[:k], i, p), 'AssertionError'))
    check(raised(lambda: verify_branch(r[k + 1:], i, p), 'AssertionError'))
  check(raised(lambda: verify_branch(r + b'0', i, p), 'AssertionError'))
  check(raised(lambda: verify_branch(b'0' + r, i, p), 'AssertionError'))


@config(unroll=600)
def law_tree_large(a: List(Bytes(32), 256)):
  """the trees over 64, 128 and 256 leaves, and opening them"""
  for n in (64, 128, 256):
    b = a[:n]
    t = merkelize(b)
    s = tree_of(b)
    same(len(t), 2 * n)
    same(t[1], s[1])
    same([t[i] for i in range(n, 2 * n)], [s[i] for i in range(n, 2 * n)])
    for i in (2, 3, n // 2 - 1, n // 2, n - 1):
      same(t[i], s[i])
    for i in (0, 1, n // 4 - 1, n // 4, n // 2 + 1, n - 1):
      same(verify_branch(t[1], i, mk_branch(t, i)), b[i])


@config(unroll=600)
def law_permutation_large(a: List(Int, 512)):
  """the interleaving of hundreds of values, and the index map"""
  for n in (100, 256, 512):
    p = permute4(a[:n])
    same(len(p), n)
    same(p, [a[(k % 4) * (n // 4) + k // 4] for k in range(n)])
    same([p[get_index_in_permuted(i, n)] for i in (0, 1, n // 4 - 1, n // 4, n // 2, n - 1)],
         [a[i] for i in (0, 1, n // 4 - 1, n // 4, n // 2, n - 1)])


@config(field='prime', unroll=600)
def law_evaluations_wide(a: List(Elt, 4), b: List(Elt, 4)):
  """joint leaves of many polynomials hold every one of them, in order"""
  for k in (5, 9, 20, 40):
    t = merkelize_polynomial_evaluations(1, [a if j % 3 else b for j in range(k)])
    leaves = []
    for i in range(4):
      leaf = b''
      for j in range(k):
        leaf = leaf + (a if j % 3 else b)[i].to_bytes()
      leaves.append(leaf)
    s = tree_of(leaves)
    for i in range(1, 8):
      same(t[i], s[i])


@config(field='prime', unroll=600)
def law_evaluations_long(a: List(Elt, 128), b: List(Elt, 128)):
  """joint leaves of long evaluation lists"""
  t = merkelize_polynomial_evaluations(1, [a, b])
  s = tree_of([a[i].to_bytes() + b[i].to_bytes() for i in range(128)])
  same(len(t), 256)
  same(t[1], s[1])
  same([t[i] for i in range(128, 256)], [s[i] for i in range(128, 256)])


def law_verify_empty(p: List(Bytes(32), 4), i: Below(8)):
  """a sibling that is empty, or of another length, is hashed like any other"""
  for k in (1, 2, 3):
    q = [b'' if j == k else p[j] for j in range(4)]
    r = root_from(i, q)
    same(verify_branch(r, i, q), p[0])
    for s in (root_from(i // 2, [p[j] for j in range(4) if j != k]), root_from(i, p), p[0], b''):
      same(raised(lambda: verify_branch(s, i, q), 'AssertionError'), r != s)
    q = [p[j] + b'x' if j == k else p[j] for j in range(4)]
    r = root_from(i, q)
    same(verify_branch(r, i, q), p[0])
    same(raised(lambda: verify_branch(root_from(i, p), i, q), 'AssertionError'), r != root_from(i, p))


def law_verify_leaf(a: Bytes(32), b: Bytes(32)):
  """only the leaf itself is the root of a branch without siblings; no leaf is the empty root's"""
  for r in (b'', b'\\0', a[:31], a + b'x'):
    check(raised(lambda: verify_branch(r, 0, [a, b, a]), 'AssertionError') or root_from(0, [a, b, a]) == r)


def law_verify_int():
  """the leaf as an integer counts all its bytes"""
  for n in (1, 8, 31, 32, 33, 64, 96):
    leaf = bytes([(i * 7 + 1) % 256 for i in range(n)])
    p = [leaf, b'a' * 32, b'b' * 32]
    for i in range(4):
      same(verify_branch(root_from(i, p), i, p, output_as_int=True), int.from_bytes(leaf, 'big'))
      same(verify_branch(root_from(i, p), i, p), leaf)
