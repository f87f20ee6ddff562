"""Byte encodings and leaf packing."""
from starks.modp import IntegersModP
from starks.rationals_modp import RationalsModP
from starks.finitefield import FiniteField
from starks.polynomial import polynomials_over
from starks.merkle_tree import unpack_merkle_leaf
from starks.merkle_tree import merkelize_polynomial_evaluations


def yes(*args):
  return True


def poly_ring(ring):
  return polys()


def prime_field(p):
  return field()


def law_residue_encoding(p: Prime, a: Int):
  """an encoding is the residue in 32 big-endian bytes"""
  assume(p < 2**256)
  e = IntegersModP(p)(a).to_bytes()
  same(e, (a % p).to_bytes(32, 'big'))
  same(len(e), 32)


def law_residue_round_trip(p: Prime, a: Int):
  """decoding an encoding gives the element back"""
  assume(p < 2**256)
  K = IntegersModP(p)
  x = K(K(a).to_bytes())
  same(x.n, a % p)
  check(x == K(a))


def law_residue_decode(p: Prime, b: Bytes(32)):
  """decoding any 32 bytes yields the reduced big-endian value"""
  x = IntegersModP(p)(b)
  same(x.n, int.from_bytes(b, 'big') % p)
  check(x.n < p)
  check(x.n >= 0)


def law_residue_decode_any(p: Prime, b: Bytes):
  """bytes of any length decode to a reduced element"""
  x = IntegersModP(p)(b)
  same(x.n, int.from_bytes(b, 'big') % p)


@config(field='prime')
def law_poly_encoding(a: Elt, b: Elt, c: NonzeroElt):
  """a polynomial is encoded as the concatenation of its coefficients, lowest first"""
  P = polynomials_over(field())
  same(P([a, b, c]).to_bytes(), a.to_bytes() + b.to_bytes() + c.to_bytes())
  same(P([c]).to_bytes(), c.to_bytes())
  same(P([a, c]).to_bytes(), a.to_bytes() + c.to_bytes())
  same(P([]).to_bytes(), b'')


@config(field='prime')
def law_poly_encoding_any(xs: Seq(Elt)):
  """the encoding of any polynomial concatenates the encodings of its stored coefficients"""
  f = polynomials_over(field())(xs)
  same(f.to_bytes(), b''.join([c.to_bytes() for c in f.coefficients]))


@config(field='prime')
def law_poly_round_trip(a: Elt, b: Elt, c: NonzeroElt):
  """decoding an encoded polynomial gives it back"""
  P = polynomials_over(field())
  f = P([a, b, c])
  check(P(f.to_bytes()) == f)
  same(P(f.to_bytes()).coefficients, [a, b, c])
  g = P([c])
  same(P(g.to_bytes()).coefficients, [c])
  same(P(P([]).to_bytes()).coefficients, [])


@config(field='prime')
def law_poly_decode(u: Bytes(32), v: Bytes(32), w: Bytes(32)):
  """decoding splits into 32-byte chunks, lowest coefficient first"""
  P = polynomials_over(field())
  F = field()
  f = P(u + v + w)
  same(f.coefficients, P([F(u), F(v), F(w)]).coefficients)
  f = P(u)
  same(f.coefficients, P([F(u)]).coefficients)
  f = P(u + v)
  same(f.coefficients, P([F(u), F(v)]).coefficients)


@config(field='prime')
def law_poly_decode_any(bs: Seq(Bytes(32))):
  """decoding any number of chunks"""
  P = polynomials_over(field())
  F = field()
  f = P(b''.join(bs))
  same(f.coefficients, P([F(b) for b in bs]).coefficients)


@config(field='prime')
def law_poly_decode_wrong(b: Bytes):
  """byte strings that are not whole chunks are rejected"""
  P = polynomials_over(field())
  same(raised(lambda: P(b)), len(b) % 32 != 0)


@config(field='prime')
def law_extension_encoding(g: PolyGe(2), f: Poly):
  """an extension-field element is encoded as its representative polynomial"""
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.modp.IntegersModP', prime_field)
  contract('starks.polynomial.polynomials_over', poly_ring)
  F = FiniteField(field().p, g.degree(), g)
  same(F(f).to_bytes(), (f % g).to_bytes())


def law_rational_encoding(p: Prime, a: Int, b: Int):
  """a fraction is encoded as numerator then denominator"""
  contract('starks.euclidean.gcd', gcd)
  assume(p < 2**256)
  assume(b % p != 0)
  x = RationalsModP(p)(a, b)
  same(x.to_bytes(), x.m.to_bytes(32, 'big') + x.n.to_bytes(32, 'big'))


def law_rational_round_trip(p: Prime, a: Int, b: Int):
  """decoding an encoded fraction gives it back"""
  contract('starks.euclidean.gcd', gcd)
  assume(p < 2**256)
  assume(b % p != 0)
  K = RationalsModP(p)
  x = K(a, b)
  y = K(x.to_bytes())
  check(y == x)


def law_unpack_1(a: Bytes(32), b: Bytes(32), c: Bytes(32)):
  """one dimension, three polynomials"""
  same(unpack_merkle_leaf(a + b + c, 1, 3), [a, b, c])
  same(unpack_merkle_leaf(a, 1, 1), [a])
  same(unpack_merkle_leaf(a + b, 2, 1), [a, b])
  same(unpack_merkle_leaf(a + b, 1, 2), [a, b])


def law_unpack_6(cs: List(Bytes(32), 6)):
  """two dimensions, three polynomials, and the other way round"""
  leaf = b''.join(cs)
  same(unpack_merkle_leaf(leaf, 2, 3), cs)
  same(unpack_merkle_leaf(leaf, 3, 2), cs)
  same(unpack_merkle_leaf(leaf, 6, 1), cs)
  same(unpack_merkle_leaf(leaf, 1, 6), cs)


def law_unpack_any(n: SmallGe(1), m: SmallGe(1), cs: Seq(Bytes(32), n * m)):
  """every chunk comes back in packing order for every dimension and number of polynomials"""
  same(unpack_merkle_leaf(b''.join(cs), n, m), cs)


@config(field='prime')
def law_pack_unpack(a: List(Elt, 4), b: List(Elt, 4), c: List(Elt, 4)):
  """a leaf built from evaluations unpacks to their encodings"""
  t = merkelize_polynomial_evaluations(1, [a, b, c])
  for i in range(4):
    same(unpack_merkle_leaf(t[4 + i], 1, 3), [a[i].to_bytes(), b[i].to_bytes(), c[i].to_bytes()])
    same([field()(x) for x in unpack_merkle_leaf(t[4 + i], 1, 3)], [a[i], b[i], c[i]])


@config(field='prime')
def law_pack_order(a: List(Elt, 4), b: List(Elt, 4), c: List(Elt, 4), d: List(Elt, 4)):
  """two dimensions: trace polynomials first, then the next group"""
  t = merkelize_polynomial_evaluations(2, [a, b, c, d])
  for i in range(4):
    u = unpack_merkle_leaf(t[4 + i], 2, 2)
    same(u, [a[i].to_bytes(), b[i].to_bytes(), c[i].to_bytes(), d[i].to_bytes()])


@config(unroll=300)
def law_unpack_large(cs: List(Bytes(32), 96)):
  """many dimensions and many polynomials"""
  for n, m in [(1, 10), (10, 1), (3, 7), (7, 3), (8, 12), (12, 8), (1, 96), (96, 1), (4, 16)]:
    same(unpack_merkle_leaf(b''.join(cs[:n * m]), n, m), cs[:n * m])


@config(field='prime', unroll=300)
def law_pack_wide(a: List(Elt, 4), b: List(Elt, 4)):
  """leaves of many polynomials unpack to all the encodings"""
  for n, m in [(1, 9), (3, 4), (2, 20)]:
    es = [a if j % 3 else b for j in range(n * m)]
    t = merkelize_polynomial_evaluations(n, es)
    for i in range(4):
      same(unpack_merkle_leaf(t[4 + i], n, m), [e[i].to_bytes() for e in es])


@config(field='prime', unroll=300)
def law_poly_long(cs: List(NonzeroElt, 80)):
  """long polynomials are encoded coefficient by coefficient and come back"""
  P = polynomials_over(field())
  for n in (31, 32, 33, 64, 65, 80):
    f = P(cs[:n])
    e = f.to_bytes()
    same(e, b''.join([c.to_bytes() for c in cs[:n]]))
    same(P(e).coefficients, cs[:n])


def law_residue_decode_concrete():
  """the byte order and the length do not matter to the value: 0 to 70 bytes"""
  for p in (2, 3, 257, 2**127 - 1, 2**255 - 19):
    K = IntegersModP(p)
    for n in (0, 1, 2, 8, 16, 31, 32, 33, 40, 64, 70):
      b = bytes([(37 * i + 11) % 256 for i in range(n)])
      same(K(b).n, int.from_bytes(b, 'big') % p)


def law_residue_encoding_concrete():
  """values of every size below 2**256 fill the whole encoding"""
  p = 2**255 - 19
  K = IntegersModP(p)
  for k in (0, 1, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 200, 254):
    for d in (0, 1, -1):
      v = (2**k + d) % p
      same(K(v).to_bytes(), v.to_bytes(32, 'big'))
      same(K(K(v).to_bytes()).n, v)


def law_residue_encoding_top():
  """values in the upper half of the 32-byte range"""
  for p in (2**256 - 2**32 * 351 + 1, 2**256 - 189):
    K = IntegersModP(p)
    for v in (2**255 - 1, 2**255, 2**255 + 1, 2**255 + 2**254, p - 1, p - 2, p - 2**128, 2**248, 2**252 + 7):
      same(K(v).to_bytes(), v.to_bytes(32, 'big'))
      same(K(K(v).to_bytes()).n, v)
