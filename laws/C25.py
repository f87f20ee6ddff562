"""The blockchain."""
import hashlib
import json
import requests
from misc.blockchain import Blockchain


def digest(block):
  return hashlib.sha256(json.dumps(block, sort_keys=True).encode()).hexdigest()


def work(last_proof, proof, last_hash):
  return hashlib.sha256(f'{last_proof}{proof}{last_hash}'.encode()).hexdigest()[:4] == '0000'


def block(index, time, txs, proof, previous):
  return {'index': index, 'timestamp': time, 'transactions': txs, 'proof': proof, 'previous_hash': previous}


def law_hash(i: Nat, t: Float, p: Nat, h: Str, s: Str, r: Str, a: Int):
  """the hash of a block is the hash of its sorted encoding"""
  b = block(i, t, [{'sender': s, 'recipient': r, 'amount': a}], p, h)
  same(Blockchain.hash(b), digest(b))


def law_hash_order(i: Nat, p: Nat, h: Str):
  """the order of the keys does not matter"""
  same(Blockchain.hash({'proof': p, 'index': i, 'previous_hash': h}),
       Blockchain.hash({'previous_hash': h, 'index': i, 'proof': p}))


def law_proof(a: Nat, b: Nat, h: Str):
  """a proof is valid when the hash of both proofs and the previous hash starts with four zeroes"""
  same(Blockchain.valid_proof(a, b, h), work(a, b, h))


def is_hash(b):
  return uf('hash', 'str', b['id'], b['proof'])


def is_work(p, q, h):
  return uf('work', 'bool', p, q, h)


def mk(n, p, h):
  return {'id': n, 'proof': p, 'previous_hash': h}


def law_single(n: Int, p: Int, h: Str):
  """a chain of one block is valid"""
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.valid_proof', is_work)
  same(Blockchain().valid_chain([mk(n, p, h)]), True)


def linked(a, b):
  return b['previous_hash'] == is_hash(a) and is_work(a['proof'], b['proof'], is_hash(a))


def law_two(ns: List(Int, 2), ps: List(Int, 2), hs: List(Str, 2)):
  """two blocks: the link and the work are both required"""
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.valid_proof', is_work)
  c = [mk(n, p, h) for n, p, h in zip(ns, ps, hs)]
  same(Blockchain().valid_chain(c), linked(c[0], c[1]))


def law_three(ns: List(Int, 3), ps: List(Int, 3), hs: List(Str, 3)):
  """three blocks: every link is required"""
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.valid_proof', is_work)
  c = [mk(n, p, h) for n, p, h in zip(ns, ps, hs)]
  same(Blockchain().valid_chain(c), linked(c[0], c[1]) and linked(c[1], c[2]))


def law_five(ns: List(Int, 5), ps: List(Int, 5), hs: List(Str, 5)):
  """five blocks: every link is required"""
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.valid_proof', is_work)
  c = [mk(n, p, h) for n, p, h in zip(ns, ps, hs)]
  same(Blockchain().valid_chain(c), all([linked(c[i], c[i + 1]) for i in range(4)]))


def law_any(n: Small, ns: Seq(Int, n + 1), ps: Seq(Int, n + 1), hs: Seq(Str, n + 1)):
  """any number of blocks: every link is required"""
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.valid_proof', is_work)
  c = [mk(ns[i], ps[i], hs[i]) for i in range(n + 1)]
  same(Blockchain().valid_chain(c), all([linked(c[i], c[i + 1]) for i in range(n)]))


def law_any_valid(n: Small, ns: Seq(Int, n + 1), ps: Seq(Int, n + 1)):
  """a chain whose hashes all link is as valid as its work"""
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.valid_proof', is_work)
  c = [mk(ns[i], ps[i], uf('hash', 'str', ns[i - 1], ps[i - 1]) if i else 'x') for i in range(n + 1)]
  same(Blockchain().valid_chain(c), all([is_work(ps[i], ps[i + 1], is_hash(c[i])) for i in range(n)]))


def law_chain_kept(ns: List(Int, 3), ps: List(Int, 3), hs: List(Str, 3)):
  """validation does not change the chain"""
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.valid_proof', is_work)
  c = [mk(n, p, h) for n, p, h in zip(ns, ps, hs)]
  Blockchain().valid_chain(c)
  same(c, [mk(n, p, h) for n, p, h in zip(ns, ps, hs)])


def law_genesis():
  """a new chain has one block with proof 100 and no pending transactions"""
  b = Blockchain()
  same(len(b.chain), 1)
  same((b.chain[0]['index'], b.chain[0]['proof'], b.chain[0]['previous_hash'], b.chain[0]['transactions']), (1, 100, '1', []))
  same(b.current_transactions, [])
  same(len(b.nodes), 0)


def law_transaction(s: Str, r: Str, a: Int, s2: Str, r2: Str, a2: Int):
  """transactions are queued in order, unchanged, for the next block"""
  b = Blockchain()
  same(b.new_transaction(s, r, a), 2)
  same(b.new_transaction(s2, r2, a2), 2)
  same(b.current_transactions, [{'sender': s, 'recipient': r, 'amount': a}, {'sender': s2, 'recipient': r2, 'amount': a2}])
  same(len(b.chain), 1)


def law_new_block(s: Str, r: Str, a: Int, p: Nat):
  """a new block links to the last one, takes the pending transactions and empties the pool"""
  contract('misc.blockchain.Blockchain.hash', lambda x: uf('blockhash', 'str', x['index'], x['proof']))
  b = Blockchain()
  b.new_transaction(s, r, a)
  x = b.new_block(p, None)
  same((x['index'], x['proof'], x['previous_hash']), (2, p, uf('blockhash', 'str', 1, 100)))
  same(x['transactions'], [{'sender': s, 'recipient': r, 'amount': a}])
  same(b.current_transactions, [])
  same(len(b.chain), 2)
  check(b.chain[1] is x)
  check(b.last_block is x)
  y = b.new_block(p + 1, None)
  same((y['index'], y['previous_hash'], y['transactions']), (3, uf('blockhash', 'str', 2, p), []))
  same([c['proof'] for c in b.chain], [100, p, p + 1])


def law_pool_not_shared(s: Str, r: Str, a: Int, p: Nat):
  """a transaction made after a block does not enter that block"""
  b = Blockchain()
  x = b.new_block(p, '2')
  b.new_transaction(s, r, a)
  same(x['transactions'], [])
  same(b.chain[0]['transactions'], [])
  same(len(b.current_transactions), 1)


def law_given_hash(h: Str, p: Nat):
  """a given previous hash is stored"""
  assume(h != '')
  b = Blockchain()
  same(b.new_block(p, h)['previous_hash'], h)


def law_index(p: Nat, q: Nat, s: Str, r: Str, a: Int):
  """the index of the block that will hold a transaction is the next one"""
  b = Blockchain()
  b.new_block(p, '2')
  b.new_block(q, '3')
  same(b.new_transaction(s, r, a), 4)
  same(b.new_block(q, '4')['index'], 4)


def law_history(n: Small, ps: Seq(Nat, n)):
  """after any number of blocks the indices count up"""
  b = Blockchain()
  for i in range(n):
    b.new_block(ps[i], '1')
  same([x['index'] for x in b.chain], [i + 1 for i in range(n + 1)])
  same([x['proof'] for x in b.chain], [100] + [ps[i] for i in range(n)])


def law_mining(n: Int, p: Int, h: Str):
  """a mined proof satisfies the proof check for the last block and its hash"""
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.valid_proof', is_work)
  last = mk(n, p, h)
  q = Blockchain().proof_of_work(last)
  check(is_work(p, q, is_hash(last)))
  check(q >= 0)


class Answer:

  def __init__(self, status, chain, length):
    self.status_code = status
    self.chain = chain
    self.length = length

  def json(self):
    return {'chain': self.chain, 'length': self.length}


def is_valid(self, c):
  return uf('valid', 'bool', c)


def with_peers(peers, answers):
  b = Blockchain()
  b.nodes = peers
  b.chain = ['genesis', 'one']
  contract('misc.blockchain.Blockchain.valid_chain', is_valid)
  contract('requests.get', lambda url: answers[url])
  return b


def law_no_peers():
  """without peers nothing is replaced"""
  b = with_peers([], {})
  same(b.resolve_conflicts(), False)
  same(b.chain, ['genesis', 'one'])


def law_one_peer(c: Seq(Str), st: Int, k: Int):
  """one peer: its chain is taken exactly when it answers, is longer and valid"""
  b = with_peers(['a'], {'http://a/chain': Answer(st, c, k)})
  take = st == 200 and len(c) > 2 and uf('valid', 'bool', c)
  r = b.resolve_conflicts()
  same(r, take)
  same(b.chain, c if take else ['genesis', 'one'])


def law_two_peers(c: Seq(Str), d: Seq(Str), st: Int, k: Int):
  """two peers: the longest valid chain wins, the first one on ties"""
  b = with_peers(['a', 'b'], {'http://a/chain': Answer(200, c, k), 'http://b/chain': Answer(st, d, k)})
  one = len(c) > 2 and uf('valid', 'bool', c)
  m = len(c) if one else 2
  two = st == 200 and len(d) > m and uf('valid', 'bool', d)
  r = b.resolve_conflicts()
  same(r, one or two)
  same(b.chain, d if two else c if one else ['genesis', 'one'])


def law_three_peers(c: Seq(Str), d: Seq(Str), e: Seq(Str), k: Int):
  """three peers: the longest valid chain wins"""
  b = with_peers(['a', 'b', 'c'], {'http://a/chain': Answer(200, c, k), 'http://b/chain': Answer(200, d, k),
                                   'http://c/chain': Answer(200, e, k)})
  best = ['genesis', 'one']
  for x in [c, d, e]:
    if uf('valid', 'bool', x) and len(x) > len(best):
      best = x
  b.resolve_conflicts()
  same(b.chain, best)


def law_nodes():
  """peers are registered by address, once"""
  b = Blockchain()
  b.register_node('http://192.168.0.5:5000')
  b.register_node('192.168.0.6:5000')
  b.register_node('http://192.168.0.5:5000/chain')
  same(len(b.nodes), 2)
  check('192.168.0.5:5000' in b.nodes)
  check('192.168.0.6:5000' in b.nodes)


def law_no_address():
  """an empty address is refused"""
  b = Blockchain()
  check(raised(lambda: b.register_node(''), 'ValueError'))
  same(len(b.nodes), 0)


H = '2d711642b726b04401627ca9fbac32f5c8530fb1903cc4db02258717921a4881'
G = 'a1fce4363854ff888cff4b8e7875d600c2682390412a8cf79b37d0b11148b0fa'


class Digest(object):
  """a hash with a given value for one message"""

  def __init__(self, value):
    self.value = value

  def hexdigest(self):
    return self.value

  def digest(self):
    return bytes.fromhex(self.value)


def law_proof_table():
  """proofs whose hash begins with four zeroes or more, and ones whose hash nearly does"""
  for a, q, h in [(100, 5339, '1'), (0, 0, H), (12345, 118015, H), (10000000, 228332, G), (2**64 + 1, 7, G), (1, 2**80, '')]:
    message = (str(a) + str(q) + h).encode()
    for start in ['0000', '00000', '0001', '000f', '0010', '0100', '1000', '0a00', 'f000', '000000000000', 'ffff']:
      value = start + 'e' * (64 - len(start))
      contract('hashlib.sha256', lambda m: Digest(value if m == message else 'd' * 64))
      same(Blockchain.valid_proof(a, q, h), start[:4] == '0000')
      contract('hashlib.sha256', lambda m: Digest(value if m != message else 'd' * 64))
      check(not Blockchain.valid_proof(a, q, h))


def names(b):
  """a hash of 64 characters that differs for every block of these laws"""
  return 'b%063d' % (b['id'] * 7 + b['proof'])


def changed(h, k):
  return h[:k] + 'x' + h[k + 1:]


def law_link_whole():
  """the whole hash is compared: a difference in any place breaks the link"""
  contract('misc.blockchain.Blockchain.hash', names)
  contract('misc.blockchain.Blockchain.valid_proof', lambda p, q, h: True)
  b = Blockchain()
  one = mk(1, 5, '1')
  h = names(one)
  same(b.valid_chain([one, mk(2, 6, h)]), True)
  for bad in [changed(h, k) for k in (0, 1, 7, 8, 15, 31, 32, 47, 62, 63)] + [h[:63], h + '0', h[1:], '', h[:32], '1']:
    same(b.valid_chain([one, mk(2, 6, bad)]), False)


def law_work_of_hash():
  """the work is checked against the proofs of both blocks and the hash of the earlier one"""
  seen = []

  def valid(p, q, h):
    seen.append((p, q, h))
    return True
  contract('misc.blockchain.Blockchain.hash', names)
  contract('misc.blockchain.Blockchain.valid_proof', valid)
  c = [mk(0, 100, '1')]
  for i in range(1, 12):
    c.append(mk(i, 3 * i, names(c[i - 1])))
  same(Blockchain().valid_chain(c), True)
  same(seen, [(c[i]['proof'], c[i + 1]['proof'], names(c[i])) for i in range(11)])


@config(unroll=300)
def law_long():
  """long chains: one bad link or one bad proof anywhere makes the chain invalid"""
  contract('misc.blockchain.Blockchain.hash', names)
  for n in [12, 70, 130]:
    c = [mk(0, 100, '1')]
    for i in range(1, n):
      c.append(mk(i, 3 * i, names(c[i - 1])))
    contract('misc.blockchain.Blockchain.valid_proof', lambda p, q, h: True)
    b = Blockchain()
    same(b.valid_chain(c), True)
    for k in [1, 2, 9, 10, 11, n // 2, n - 2, n - 1]:
      d = [mk(k, 3 * k, 'other') if i == k else x for i, x in enumerate(c)]
      same(b.valid_chain(d), False)
    for k in [1, 2, 9, 10, 11, n // 2, n - 2, n - 1]:
      contract('misc.blockchain.Blockchain.valid_proof', lambda p, q, h: q != 3 * k)
      same(b.valid_chain(c), False)


def law_queue(n: Small, xs: Seq(Int, n), s: Str, r: Str, a: Int):
  """a transaction joins any number of earlier ones, in order, for the next block"""
  b = Blockchain()
  for i in range(n):
    b.new_transaction('s', 'r', xs[i])
  same(b.new_transaction(s, r, a), 2)
  same([t['amount'] for t in b.current_transactions], [xs[i] for i in range(n)] + [a])


@config(unroll=300)
def law_queue_long():
  """long queues: every transaction is told and enters the next block"""
  b = Blockchain()
  for i in range(130):
    same(b.new_transaction('a', 'b', i), 2)
  x = b.new_block(5, '3')
  same([x['transactions'][k]['amount'] for k in (0, 1, 9, 63, 64, 65, 99, 100, 129)], [0, 1, 9, 63, 64, 65, 99, 100, 129])
  same(len(x['transactions']), 130)
  same(len(b.current_transactions), 0)
  same(b.new_transaction('a', 'b', 0), 3)


@config(unroll=300)
def law_history_long():
  """long chains: the indices count up and every block links to the one before"""
  contract('misc.blockchain.Blockchain.hash', lambda x: 'b%d' % x['index'])
  b = Blockchain()
  for i in range(120):
    x = b.new_block(i, None)
    same((x['index'], x['previous_hash'], x['proof']), (i + 2, 'b%d' % (i + 1), i))
  same(len(b.chain), 121)
  same(b.new_transaction('a', 'b', 1), 122)


def law_many_peers():
  """many peers: the longest valid chain wins, wherever its holder comes"""
  for best in [0, 1, 7, 8, 15, 19]:
    answers, peers = {}, []
    for i in range(20):
      peers.append('p%d' % i)
      answers['http://p%d/chain' % i] = Answer(200, ['n%d' % i] * (9 if i == best else 3 + i % 5), 50 - i)
    b = with_peers(peers, answers)
    contract('misc.blockchain.Blockchain.valid_chain', lambda self, c: True)
    same(b.resolve_conflicts(), True)
    same(b.chain, ['n%d' % best] * 9)


def law_genesis_pool(s: Str, r: Str, a: Int):
  """the first block of a new node does not share the pool: a transaction made right after it stays out of it"""
  b = Blockchain()
  b.new_transaction(s, r, a)
  same(b.chain[0]['transactions'], [])
  same(b.current_transactions, [{'sender': s, 'recipient': r, 'amount': a}])


def law_lengths():
  """a node with a chain of any length takes a longer valid one, and keeps its own otherwise"""
  for own in [1, 2, 3, 10]:
    for k in range(1, 13):
      for ok in [True, False]:
        c = ['b%d' % i for i in range(k)]
        b = with_peers(['a'], {'http://a/chain': Answer(200, c, k)})
        mine = ['o%d' % i for i in range(own)]
        b.chain = mine
        contract('misc.blockchain.Blockchain.valid_chain', lambda self, chain: ok)
        take = ok and k > own
        same(b.resolve_conflicts(), take)
        same(b.chain, c if take else mine)
