"""The endpoints of a blockchain node."""
CONFIG = {'history': False}      # the state of the node is what these laws are about


class Flask(object):
  """stands for the web framework: remembers the routes"""

  def __init__(self, name):
    self.routes = {}

  def route(self, path, methods=None):
    def wrap(f):
      self.routes[path] = (methods, f)
      return f
    return wrap


class Request(object):
  """the request being served"""

  def __init__(self):
    self.body = None


asked = Request()
contract('flask.Flask', Flask)
contract('flask.jsonify', lambda x: x)
contract('flask.request.get_json', lambda: asked.body)
from misc.run_blockchain import app
from misc.run_blockchain import blockchain
from misc.run_blockchain import node_identifier

consensus = app.routes['/nodes/resolve'][1]
full_chain = app.routes['/chain'][1]
mine = app.routes['/mine'][1]
new_transaction = app.routes['/transactions/new'][1]
register_nodes = app.routes['/nodes/register'][1]


def is_hash(block):
  return uf('blockhash', 'str', block['index'], block['proof'], block['previous_hash'])


def proved():
  contract('misc.blockchain.Blockchain.hash', is_hash)
  contract('misc.blockchain.Blockchain.proof_of_work', lambda self, last: uf('mined', 'int', last['index'], last['proof'], is_hash(last)))


def law_routes():
  """every endpoint is served under its path and method"""
  r = app.routes
  same(sorted(r.keys()), ['/chain', '/mine', '/nodes/register', '/nodes/resolve', '/transactions/new'])
  same([r[p][0] for p in ['/chain', '/mine', '/nodes/resolve']], [['GET'], ['GET'], ['GET']])
  same([r[p][0] for p in ['/nodes/register', '/transactions/new']], [['POST'], ['POST']])


def law_mine(s: Str, d: Str, a: Int):
  """mining appends one linked, proven block with the pending transactions and the reward, and reports it"""
  proved()
  first = blockchain.chain[0]
  asked.body = {'sender': s, 'recipient': d, 'amount': a}
  new_transaction()
  r, code = mine()
  txs = [{'sender': s, 'recipient': d, 'amount': a}, {'sender': '0', 'recipient': node_identifier, 'amount': 1}]
  same(code, 200)
  same(len(blockchain.chain), 2)
  b = blockchain.chain[1]
  p = uf('mined', 'int', 1, 100, is_hash(first))
  same((b['index'], b['proof'], b['previous_hash'], b['transactions']), (2, p, is_hash(first), txs))
  same((r['index'], r['proof'], r['previous_hash'], r['transactions']), (2, p, is_hash(first), txs))
  same(r['message'], 'New Block Forged')
  same(blockchain.current_transactions, [])
  same(blockchain.chain[0], first)


def law_mine_twice():
  """every mined block links to the one before"""
  proved()
  mine()
  mine()
  c = blockchain.chain
  same(len(c), 3)
  same((c[2]['previous_hash'], c[2]['index']), (is_hash(c[1]), 3))
  same(c[2]['proof'], uf('mined', 'int', 2, c[1]['proof'], is_hash(c[1])))
  same(c[2]['transactions'], [{'sender': '0', 'recipient': node_identifier, 'amount': 1}])


def law_transaction(s: Str, d: Str, a: Int):
  """a complete transaction is queued unchanged"""
  asked.body = {'sender': s, 'recipient': d, 'amount': a, 'extra': 1}
  r, code = new_transaction()
  same(code, 201)
  same(r, {'message': 'Transaction will be added to Block 2'})
  same(blockchain.current_transactions, [{'sender': s, 'recipient': d, 'amount': a}])
  same(len(blockchain.chain), 1)


def law_transaction_incomplete(s: Str, a: Int):
  """a transaction with a missing field is refused and queues nothing"""
  for body in [{}, {'sender': s}, {'sender': s, 'recipient': s}, {'sender': s, 'amount': a}, {'recipient': s, 'amount': a}]:
    asked.body = body
    same(new_transaction(), ('Missing values', 400))
    same(blockchain.current_transactions, [])
  same(len(blockchain.chain), 1)


def law_transaction_falsy(s: Str):
  """a present field counts whatever its value"""
  asked.body = {'sender': '', 'recipient': s, 'amount': 0}
  r, code = new_transaction()
  same(code, 201)
  same(blockchain.current_transactions, [{'sender': '', 'recipient': s, 'amount': 0}])


def law_chain(n: Small, ps: Seq(Nat, n)):
  """the chain is reported whole with its length"""
  for i in range(n):
    blockchain.new_block(ps[i], '1')
  r, code = full_chain()
  same(code, 200)
  same(r['length'], n + 1)
  same([b['proof'] for b in r['chain']], [100] + [ps[i] for i in range(n)])
  same(len(blockchain.chain), n + 1)


def law_register():
  """the given nodes are added and all known nodes reported"""
  asked.body = {'nodes': ['http://a:5000', '10.0.0.2:5001', 'http://a:5000/chain']}
  r, code = register_nodes()
  same(code, 201)
  same(blockchain.nodes, set(['a:5000', '10.0.0.2:5001']))
  same(sorted(r['total_nodes']), ['10.0.0.2:5001', 'a:5000'])
  asked.body = {'nodes': ['http://c:1']}
  r, code = register_nodes()
  same(sorted(r['total_nodes']), ['10.0.0.2:5001', 'a:5000', 'c:1'])


def law_register_refused():
  """without a list of nodes nothing is added"""
  asked.body = {'other': ['http://a:5000']}
  same(register_nodes(), ('Error: Please supply a valid list of nodes', 400))
  same(len(blockchain.nodes), 0)


def law_register_none():
  """an empty list is a list"""
  asked.body = {'nodes': []}
  r, code = register_nodes()
  same((code, r['total_nodes']), (201, []))


def law_resolve(replaced: Bool, c: Seq(Int)):
  """resolving reports a replacement exactly when there was one, with the chain now held"""
  def resolve(self):
    if replaced:
      self.chain = c
      return True
    return False
  contract('misc.blockchain.Blockchain.resolve_conflicts', resolve)
  before = [b for b in blockchain.chain]
  r, code = consensus()
  same(code, 200)
  if replaced:
    same(r['message'], 'Our chain was replaced')
    same(r['new_chain'], c)
  else:
    same(r['message'], 'Our chain is authoritative')
    same(r['chain'], before)


def law_register_empty():
  """an empty list of nodes is accepted and changes nothing"""
  asked.body = {'nodes': []}
  answer = register_nodes()
  same(len(answer), 2)
  same(answer[1], 201)
  same(len(blockchain.nodes), 0)


def law_register_many():
  """many nodes are all added, over several requests too"""
  asked.body = {'nodes': ['http://a%d:5000' % i for i in range(40)]}
  register_nodes()
  asked.body = {'nodes': ['http://b%d:5000' % i for i in range(40)]}
  r, code = register_nodes()
  known = ['a%d:5000' % i for i in range(40)] + ['b%d:5000' % i for i in range(40)]
  same(sorted(r['total_nodes']), sorted(known))
  same(len(blockchain.nodes), 80)


def law_chain_foreign(i: Int, p: Int):
  """a chain taken over from a peer is reported as it is"""
  blocks = [{'index': i, 'proof': p, 'previous_hash': '1', 'transactions': [], 'timestamp': 0}] * 3
  blockchain.chain = blocks
  r, code = full_chain()
  same((r['chain'], r['length'], code), (blocks, 3, 200))


@config(unroll=300)
def law_long_chain():
  """a long chain is reported whole; mining goes on at its end with the same reward"""
  proved()
  for k in range(150):
    blockchain.new_block(k, 'h')
  r, code = full_chain()
  same(r['length'], 151)
  for k in [1, 2, 9, 10, 50, 63, 64, 65, 99, 100, 149, 150]:
    same((r['chain'][k]['proof'], r['chain'][k]['index']), (k - 1, k + 1))
  same(len(r['chain']), 151)
  last = blockchain.chain[150]
  r, code = mine()
  same(len(blockchain.chain), 152)
  b = blockchain.chain[151]
  same((b['index'], b['previous_hash']), (152, is_hash(last)))
  same(b['proof'], uf('mined', 'int', 151, 149, is_hash(last)))
  same(b['transactions'], [{'sender': '0', 'recipient': node_identifier, 'amount': 1}])
  same((r['index'], r['previous_hash'], r['proof'], r['transactions']), (152, b['previous_hash'], b['proof'], b['transactions']))


@config(unroll=300)
def law_many_transactions():
  """many posted transactions are all told their block and all mined"""
  proved()
  for k in range(120):
    asked.body = {'sender': 'a', 'recipient': 'b', 'amount': k}
    r, code = new_transaction()
    same((r['message'], code), ('Transaction will be added to Block 2', 201))
  r, code = mine()
  for k in [0, 1, 9, 10, 63, 64, 65, 99, 100, 119]:
    same(r['transactions'][k], {'sender': 'a', 'recipient': 'b', 'amount': k})
  same(len(r['transactions']), 121)


def law_resolve_long():
  """the report does not depend on how long the chain is"""
  for n in [1, 2, 7, 300, 1500]:
    blockchain.chain = [{'index': i} for i in range(n)]
    for replaced in [True, False]:
      contract('misc.blockchain.Blockchain.resolve_conflicts', lambda self: replaced)
      r, code = consensus()
      same(code, 200)
      same(r['message'], 'Our chain was replaced' if replaced else 'Our chain is authoritative')
      same(len(r['new_chain' if replaced else 'chain']), n)
