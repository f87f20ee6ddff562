"""Compression of proofs."""
from starks.compression import compress_fri
from starks.compression import decompress_fri
from starks.compression import compress_branches
from starks.compression import decompress_branches
from starks.compression import bin_length


def any_decoding(o):
  """whatever the decompressor computes from the compressed form"""
  return uf('decoded', 'any', o)


def law_branches_checked(bs: Seq(Seq(Bytes))):
  """what is returned has been decompressed and compared with the whole input, for every list of branches"""
  contract('starks.compression.decompress_branches', any_decoding)
  try:
    o = compress_branches(bs)
  except Exception:
    return
  same(any_decoding(o), bs)


def law_branches_checked_2(a: List(Bytes(32), 2), b: List(Bytes(32), 1)):
  """the same for two branches"""
  contract('starks.compression.decompress_branches', any_decoding)
  try:
    o = compress_branches([a, b])
  except Exception:
    return
  same(any_decoding(o), [a, b])


def law_fri_checked(root: Bytes(32), ps: Seq(Seq(Bytes)), last: Seq(Bytes)):
  """the same for a proof with one round"""
  contract('starks.compression.decompress_fri', any_decoding)
  prf = [[root, [ps]], last]
  try:
    o = compress_fri(prf)
  except Exception:
    return
  same(any_decoding(o), prf)


def law_fri_checked_2(r: Bytes(32), s: Bytes(32), a: List(Bytes(32), 1), last: List(Bytes(32), 2)):
  """the same for two rounds of fixed shape"""
  contract('starks.compression.decompress_fri', any_decoding)
  prf = [[r, [[a]]], [s, [[a, a]]], last]
  try:
    o = compress_fri(prf)
  except Exception:
    return
  same(any_decoding(o), prf)


def law_fri_checked_direct(last: Seq(Bytes)):
  """the same for a proof without rounds"""
  contract('starks.compression.decompress_fri', any_decoding)
  try:
    o = compress_fri([last])
  except Exception:
    return
  same(any_decoding(o), [last])


def law_branches_round_trip(a: Bytes(32), b: Bytes(32)):
  """distinct and repeated entries are restored"""
  assume(a != b)
  for bs in [[], [[]], [[a]], [[a, b]], [[a, a]], [[a], [b]], [[a], [a]], [[a, b, a], [b]], [[], [a]]]:
    o = compress_branches(bs)
    same(decompress_branches(o), bs)


def law_branches_form(a: Bytes(32), b: Bytes(32)):
  """an entry is stored once; later uses are its position in two big-endian bytes"""
  assume(a != b)
  o = compress_branches([[a, b, a], [b]])
  same(o, [a, b, b'\x00\x00', b'----', b'\x00\x01', b'\x00\x03'])


def law_fri_round_trip(a: Bytes(32), b: Bytes(32), r: Bytes(32)):
  """FRI proofs with repeated entries are restored"""
  assume(a != b)
  assume(a != r)
  assume(b != r)
  for prf in [[[a]], [[a, b, a]], [[]], [[r, [[[a, b]]]], [a]], [[r, [[[a], [b]], [[b]]]], [r, [[[a]]]], [b, a]]]:
    o = compress_fri(prf)
    same(decompress_fri(o), prf)


def law_fri_form(a: Bytes(32), r: Bytes(32)):
  """the layout of a compressed FRI proof"""
  assume(a != r)
  o = compress_fri([[r, [[[a]]]], [a, r]])
  same(o, [b'----', r, a, b'++++', b'====', b'////', b'\x00\x02', b'\x00\x01'])


def law_decompress_branches(a: Bytes(32), b: Bytes(32)):
  """back references name positions of the compressed list"""
  same(decompress_branches([a, b, b'\x00\x00', b'----', b'\x00\x01', b'\x00\x03']), [[a, b, a], [b]])


def law_decompress_far(a: Bytes(32)):
  """both bytes of a position count"""
  check(raised(lambda: decompress_branches([a, b'\x01\x00']), 'IndexError'))


def law_bin_length(a: Bytes(32), b: Bytes(2), c: Bytes(4)):
  """the reported size: one marker byte per 32-byte entry plus the entries"""
  same(bin_length([a, b, c, a]), 33 + 2 + 4 + 33)
  same(bin_length([]), 0)


def law_unchanged(a: Bytes(32), b: Bytes(32)):
  """compression does not modify the proof"""
  assume(a != b)
  bs = [[a, b], [a]]
  o = compress_branches(bs)
  same(bs, [[a, b], [a]])
  prf = [[b, [[[a]]]], [a, b]]
  o = compress_fri(prf)
  same(prf, [[b, [[[a]]]], [a, b]])


def law_fri_checked_against(r: Bytes(32), s: Bytes(32), a: Bytes(32), b: Bytes(32), c: Bytes(32), d: Bytes(32)):
  """what would be decoded differently is not returned"""
  assume(a != b)
  prf = [[r, [[[a]]]], [b]]
  for t in [[[s, [[[c]]]], [d]], [[s, [[[c]]]]], [[s, [[[c]]]], [d, d]], [[s, [[[c]]]], []], [[s, [[[c]]]], [d], [d]],
            [[s, [[[c], [c]]]], [d]], [[s, [[[c]], [[c]]]], [d]], [[s, [[[c, c]]]], [d]], [[s, []], [d]],
            [[s, [[]]], [d]], [[s, [[[]]]], [d]], [[d]], []]:
    contract('starks.compression.decompress_fri', lambda o: t)
    same(raised(lambda: compress_fri(prf)), t != prf)


def law_branches_checked_against(a: Bytes(32), b: Bytes(32), c: Bytes(32), d: Bytes(32)):
  """the same for branches"""
  assume(a != b)
  bs = [[a], [b]]
  for t in [[[c], [d]], [[c]], [[c], [d], [d]], [[c], [d, d]], [[c], []], [[c, d]], [], [[c], [], [d]], [[d], [c]]]:
    contract('starks.compression.decompress_branches', lambda o: t)
    same(raised(lambda: compress_branches(bs)), t != bs)


ODD = [b'\0\0', b'\0\1', b'\0\2', b'\xff\xff', b'----', b'++++', b'====', b'////', b'', b'\0']


def law_fri_odd_entries(a: Bytes(32), b: Bytes(32)):
  """entries that look like markers or positions are restored or refused"""
  assume(a != b)
  for x in ODD:
    for prf in [[[x]], [[a, x]], [[x, a, x]], [[x, [[[a]]]], [b]], [[a, [[[x]]]], [b]], [[a, [[[b, x], [x]]]], [b, x]]]:
      try:
        o = compress_fri(prf)
      except Exception:
        continue
      same(decompress_fri(o), prf)


def law_branches_odd_entries(a: Bytes(32), b: Bytes(32)):
  """the same for branches"""
  assume(a != b)
  for x in ODD:
    for bs in [[[x]], [[a, x]], [[x, a, x]], [[x], [a]], [[a], [x]], [[], [x], [x]]]:
      try:
        o = compress_branches(bs)
      except Exception:
        continue
      same(decompress_branches(o), bs)


def entry(i):
  return (i + 1).to_bytes(32, 'big')


@config(unroll=3000)
def law_branches_large():
  """proofs with hundreds of entries are restored: positions beyond one byte"""
  for n, k in [(20, 7), (40, 8), (80, 4)]:
    bs = [[entry(i * k + j if j % 3 or i == 0 else j) for j in range(k)] for i in range(n)]
    o = compress_branches(bs)
    same(decompress_branches(o), bs)
  bs = [[entry(i) for i in range(300)], [entry(i) for i in range(299, -1, -1)], [entry(299), entry(255), entry(256), entry(257)]]
  o = compress_branches(bs)
  same(o[:301], [entry(i) for i in range(300)] + [b'----'])
  same(o[301:601], [i.to_bytes(2, 'big') for i in range(299, -1, -1)])
  same(o[601:], [i.to_bytes(2, 'big') for i in (300, 299, 255, 256, 257, 300)])
  same(decompress_branches(o), bs)


@config(unroll=3000)
def law_fri_large():
  """FRI proofs with many rounds and branches are restored"""
  for rounds, queries, depth in [(1, 10, 6), (8, 3, 4), (3, 40, 2)]:
    prf = [[entry(1000 + r), [[[entry(r * 50 + (q * 7 + d) % 40) for d in range(depth)] for b in range(2)] for q in range(queries)]]
           for r in range(rounds)] + [[entry(i) for i in range(40)]]
    o = compress_fri(prf)
    same(decompress_fri(o), prf)


@config(unroll=3000)
def law_bin_length_large():
  """the size of a long compressed proof"""
  for n, m in [(100, 0), (300, 40), (0, 500)]:
    same(bin_length([entry(i) for i in range(n)] + [b'ab' for i in range(m)]), 33 * n + 2 * m)


def law_bin_length_other():
  """only entries of 32 bytes take a marker byte"""
  for n in (0, 1, 2, 4, 31, 33, 64, 96):
    same(bin_length([b'x' * n]), n)
    same(bin_length([b'x' * n, b'y' * 32, b'x' * n]), 2 * n + 33)
