"""Random interpretation of value-graph terms.

Two value graphs whose normal forms differ may still denote the same function.
Before a difference is reported the two graphs are given a random valuation
(Gulwani and Necula, "Global value numbering using random interpretation"): the
inputs get random elements of their domains, field elements live in a large
prime field and hash functions are random functions.  This only filters alarms;
agreement of valuations never discharges an obligation.
"""
import hashlib
import math

from . import terms as T

# valuation fields: characteristic and a generator of the multiplicative group
LARGE = (2**64 - 2**32 + 1, 7)
SMALL = [(2, 1), (3, 2), (5, 2), (7, 3), (11, 2), (17, 3), (97, 5), (193, 5), (257, 3)]
P, GEN = LARGE
BIAS = None
GEN = 7


class Bot(Exception):
  """The term denotes no value (the operation fails)."""


class EvalUnsupported(Exception):
  pass


class F(int):
  """A field element."""
  __slots__ = ()

  def __new__(cls, v):
    return int.__new__(cls, int(v) % P)

  def __eq__(self, o):
    if isinstance(o, int):
      return (int(self) - int(o)) % P == 0
    return False

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return int.__hash__(self)


class Poly(tuple):
  """Coefficients, constant first, no trailing zero."""
  __slots__ = ()

  @staticmethod
  def make(cs):
    cs = [int(c) % P for c in cs]
    while cs and cs[-1] == 0:
      cs.pop()
    return Poly(cs)


def padd(a, b, k=1):
  n = max(len(a), len(b))
  return Poly.make([(a[i] if i < len(a) else 0) + k * (b[i] if i < len(b) else 0) for i in range(n)])


def pmul(a, b):
  if not a or not b:
    return Poly(())
  if len(a) + len(b) > 4000:
    raise EvalUnsupported('polynomial degree')
  r = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    if x:
      for j, y in enumerate(b):
        r[i + j] += x * y
  return Poly.make(r)


def pdivmod(a, b):
  if not b:
    raise Bot('division by the zero polynomial')
  r = list(a)
  q = [0] * max(0, len(a) - len(b) + 1)
  iv = pow(b[-1], P - 2, P)
  for k in range(len(q) - 1, -1, -1):
    c = r[k + len(b) - 1] * iv % P
    q[k] = c
    for j, y in enumerate(b):
      r[k + j] -= c * y
  return Poly.make(q), Poly.make(r[:len(b) - 1])


class FakeFn(object):
  def __init__(self, name, ret):
    self.name, self.ret = name, ret


def enc(v):
  """A canonical byte encoding of a value (for random functions)."""
  if v is None:
    return b'n'
  if v is True or v is False:
    return b'i1;' if v else b'i0;'
  if isinstance(v, F):
    return b'i%d;' % int(v)
  if isinstance(v, Poly):
    return b'p' + b''.join(b'i%d;' % c for c in v) + b'e'
  if isinstance(v, int):
    return b'i%d;' % v
  if isinstance(v, float):
    return b'f' + repr(v).encode() + b';'
  if isinstance(v, bytes):
    return b'b%d:' % len(v) + v
  if isinstance(v, str):
    e = v.encode('utf-8', 'surrogatepass')
    return b's%d:' % len(e) + e
  if isinstance(v, (list,)):
    return b'l' + b''.join(enc(x) for x in v) + b'e'
  if isinstance(v, tuple):
    return b't' + b''.join(enc(x) for x in v) + b'e'
  if isinstance(v, dict):
    return b'd' + b''.join(sorted(enc(k) + enc(x) for k, x in v.items())) + b'e'
  if isinstance(v, FakeFn):
    return b'F' + v.name.encode()
  if isinstance(v, Lazy):
    return enc(v.force())
  raise EvalUnsupported('encoding of %s' % type(v).__name__)


def prf(name, *args):
  h = hashlib.sha256()
  h.update(name.encode())
  for a in args:
    h.update(enc(a))
  return int.from_bytes(h.digest(), 'big')


def by_sort(sort, seed):
  if sort == 'int':
    return seed % 1000003
  if sort == 'bool':
    return bool(seed & 1)
  if sort == 'ring':
    return F(seed)
  if sort == 'float':
    return (seed % 1000003) / 1009.0
  if sort == 'bytes':
    return hashlib.sha256(b'%d' % seed).digest()
  if sort == 'str':
    return 's%d' % (seed % 10**9)
  if isinstance(sort, tuple) and sort[0] == 'opaque':
    return ('opaque', sort[1], seed % 10**12)
  if sort == 'poly':
    return Poly.make([prf('c', seed, j) for j in range(1 + seed % 4)])
  if isinstance(sort, tuple) and sort[0] == 'seq':
    return [by_sort(sort[1], prf('e', seed, j)) for j in range(seed % 4)]
  if sort == 'any':
    return ('opaque', 'any', seed)
  raise EvalUnsupported('value of sort %s' % (sort,))


class Lazy(object):
  __slots__ = ('f', 'v', 'done')

  def __init__(self, f):
    self.f, self.done = f, False

  def force(self):
    if not self.done:
      self.v = self.f()
      self.done = True
      self.f = None
    return self.v


def same(a, b):
  """Equality of values, deep, with field elements equal modulo P."""
  if isinstance(a, Lazy):
    a = a.force()
  if isinstance(b, Lazy):
    b = b.force()
  if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
    if isinstance(a, Poly) != isinstance(b, Poly):
      if isinstance(a, Poly) and len(b) == 0:
        return len(a) == 0
      return False
    if isinstance(a, Poly):
      return tuple.__eq__(a, b)
    if isinstance(a, list) != isinstance(b, list):
      return False
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, Poly) and isinstance(b, int):
    return same(a, Poly.make([b]))
  if isinstance(b, Poly) and isinstance(a, int):
    return same(b, Poly.make([a]))
  if isinstance(a, dict) and isinstance(b, dict):
    if len(a) != len(b):
      return False
    for k, v in a.items():
      if k not in b or not same(v, b[k]):
        return False
    return True
  if isinstance(a, FakeFn) or isinstance(b, FakeFn):
    return a is b
  if type(a) in (int, bool, F) and type(b) in (int, bool, F):
    return a == b
  if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
    if math.isnan(a) and math.isnan(b):
      return True
    return a == b
  if type(a) is not type(b):
    return False
  return a == b


def hk(v):
  """A hashable key for a value."""
  if isinstance(v, Lazy):
    v = v.force()
  if isinstance(v, F):
    return int(v)
  if isinstance(v, Poly):
    return v
  if isinstance(v, list):
    return ('list',) + tuple(hk(x) for x in v)
  if isinstance(v, tuple):
    return tuple(hk(x) for x in v)
  if isinstance(v, dict):
    return ('dict',) + tuple(sorted(((hk(k), hk(x)) for k, x in v.items()), key=repr))
  return v


MAXSEQ = 200000


class Eval(object):

  def __init__(self, env, hook=None, budget=3000000):
    self.env = env          # symbol name -> value
    self.memo = {}
    self.budget = budget
    self.mus = {}
    self.hook = hook
    self.salt = 0

  def run(self, t):
    return self.deep(self.ev(t, ()))

  def deep(self, v):
    if isinstance(v, Lazy):
      return self.deep(v.force())
    if isinstance(v, list):
      return [self.deep(x) for x in v]
    if isinstance(v, Poly):
      return v
    if isinstance(v, tuple):
      return tuple(self.deep(x) for x in v)
    if isinstance(v, dict):
      return {k: self.deep(x) for k, x in v.items()}
    return v

  # env is a tuple of bound values, innermost last
  def ev(self, t, env):
    op = t.op
    if op == 'c':
      return self.const(t)
    if op == 'bv':
      v = env[-1 - t.args[0]]
      if isinstance(v, BotBox):
        raise Bot(v.msg)
      if isinstance(v, Lazy):
        v = v.force()
      return v
    if op == 'sym':
      n = t.args[0]
      if n in self.env:
        return self.env[n]
      if n == 'INFINITY':
        raise EvalUnsupported('infinite')
      raise EvalUnsupported('symbol %s' % n)
    self.budget -= 1
    if self.budget < 0:
      raise EvalUnsupported('budget')
    key = None
    m = t.mf
    if m == 0:
      key = t
    else:
      try:
        key = (t,) + tuple(ek(x) for x in env[-m:])
        hash(key)
      except (TypeError, EvalUnsupported):
        key = None
    if key is not None:
      r = self.memo.get(key)
      if r is not None or key in self.memo:
        if isinstance(r, BotBox):
          raise Bot(r.msg)
        return r
    f = getattr(self, 'o_' + op, None)
    if f is None:
      raise EvalUnsupported('operator %s' % op)
    try:
      r = f(t, env)
    except Bot as e:
      if key is not None:
        self.memo[key] = BotBox(str(e))
      raise
    except (OverflowError, MemoryError, RecursionError) as e:
      raise EvalUnsupported(type(e).__name__)
    if key is not None:
      self.memo[key] = r
    return r

  def const(self, t):
    k, v = t.args
    if k in ('none',):
      return None
    if k == 'notimpl':
      return ('notimpl',)
    if k == 'ellipsis':
      return ('ellipsis',)
    if t.sort == 'ring':
      return F(v)
    if t.sort == 'poly':
      return Poly.make([v])
    return v

  def num(self, t, env):
    v = self.ev(t, env)
    if isinstance(v, (int, Poly)):
      return v
    if v is None or isinstance(v, tuple):
      raise Bot('arithmetic on %s' % (type(v).__name__,))
    raise EvalUnsupported('arithmetic on %s' % type(v).__name__)

  def int_(self, t, env):
    v = self.num(t, env)
    if isinstance(v, F):
      raise EvalUnsupported('field element as index')
    if isinstance(v, Poly):
      raise EvalUnsupported('polynomial as index')
    return int(v)

  def o_p(self, t, env):
    s = t.sort
    if s == 'poly':
      acc = Poly(())
      for m, c in t.args[0]:
        x = Poly.make([c])
        for a, e in m:
          v = self.num(a, env)
          k = e if isinstance(e, int) else self.int_(e, env)
          if not isinstance(v, Poly):
            v = Poly.make([self.rpow(int(v), k)])
            x = pmul(x, v)
            continue
          if k < 0:
            raise Bot('negative power of a polynomial')
          if k > 3000:
            raise EvalUnsupported('degree')
          x = pmul(x, self.ppow(v, k))
        acc = padd(acc, x)
      return acc
    acc = 0
    for m, c in t.args[0]:
      x = c
      for a, e in m:
        v = self.num(a, env)
        k = e if isinstance(e, int) else self.int_(e, env)
        if s == 'ring':
          x = x * self.rpow(int(v), k) % P
        else:
          x = self.imul(x, int(v), k)
          if isinstance(x, float):
            raise EvalUnsupported('float power')
      acc += x
    if s == 'ring':
      return F(acc)
    return acc

  def imul(self, x, v, k):
    if k == 1:
      return x * v
    if k < 0:
      # x * v**k with an integral result (a quotient of powers)
      if v == 0:
        raise Bot('zero to a negative power')
      d = v**(-k)
      if x % d == 0:
        return x // d
      raise EvalUnsupported('negative power of an integer')
    if k > 20000 and abs(v) > 1 or (abs(v).bit_length() * k > 2000000):
      raise EvalUnsupported('large power')
    return x * v**k

  def rpow(self, v, k):
    v %= P
    if k >= 0:
      return pow(v, k, P)
    if v == 0:
      raise Bot('inverse of zero')
    return pow(pow(v, P - 2, P), -k, P)

  def ppow(self, v, k):
    r = Poly((1,))
    for _ in range(k):
      r = pmul(r, v)
    return r

  def o_par(self, t, env):
    return self.ev(t.args[0], env)

  def o_fd(self, t, env):
    a, b = self.num(t.args[0], env), self.num(t.args[1], env)
    if t.sort == 'poly' or isinstance(a, Poly) or isinstance(b, Poly):
      a = a if isinstance(a, Poly) else Poly.make([a])
      b = b if isinstance(b, Poly) else Poly.make([b])
      return pdivmod(a, b)[0]
    if int(b) == 0:
      raise Bot('division by zero')
    return int(a) // int(b)

  def o_max0(self, t, env):
    return max(0, self.int_(t.args[0], env))

  def o_z(self, t, env):
    v = self.num(t.args[0], env)
    if isinstance(v, Poly):
      return not v
    if t.args[0].sort == 'ring':
      return int(v) % P == 0
    return int(v) == 0

  def o_gt0(self, t, env):
    return self.int_(t.args[0], env) > 0

  def o_eqv(self, t, env):
    return same(self.ev(t.args[0], env), self.ev(t.args[1], env))

  def cond(self, t, env):
    v = self.ev(t, env)
    if v is True or v is False:
      return v
    raise EvalUnsupported('condition of type %s' % type(v).__name__)

  def o_ite(self, t, env):
    c, a, b = t.args
    v = self.ev(a if self.cond(c, env) else b, env)
    if t.sort == 'ring' and isinstance(v, int) and not isinstance(v, F):
      return F(v)
    return v

  # sequences
  def o_lit(self, t, env):
    return [self.lazy(x, env) for x in t.args]

  def lazy(self, x, env):
    if x.op in ('c',):
      return self.const(x)
    return Lazy(lambda: self.ev(x, env))

  def o_tup(self, t, env):
    return tuple(self.ev(x, env) for x in t.args)

  def o_tupof(self, t, env):
    return tuple(self.deep(self.seq(t.args[0], env)))

  def seq(self, t, env):
    v = self.ev(t, env)
    if isinstance(v, tuple) and not isinstance(v, Poly) and not (v and isinstance(v[0], str) and v[0] in ('inst', 'opaque', 'py')):
      v = list(v)
    if not isinstance(v, list):
      raise EvalUnsupported('sequence expected, got %s' % type(v).__name__)
    return v

  def count(self, t, env):
    n = self.int_(t, env)
    if n > MAXSEQ:
      raise EvalUnsupported('length')
    return max(0, n)

  def o_cat(self, t, env):
    r = []
    for p in t.args:
      r.extend(self.seq(p, env))
    if len(r) > MAXSEQ:
      raise EvalUnsupported('length')
    return r

  def o_map(self, t, env):
    n = self.count(t.args[0], env)
    b = t.args[1]
    return [self.lazy(b, env + (k,)) for k in range(n)]

  def o_flat(self, t, env):
    n = self.count(t.args[0], env)
    r = []
    for k in range(n):
      r.extend(self.seq(t.args[1], env + (k,)))
      if len(r) > MAXSEQ:
        raise EvalUnsupported('length')
    return r

  def o_len(self, t, env):
    v = self.ev(t.args[0], env)
    if isinstance(v, Poly) or not isinstance(v, (list, tuple, dict, str, bytes)):
      raise EvalUnsupported('length of %s' % type(v).__name__)
    return len(v)

  o_blen = o_len

  def o_at(self, t, env):
    v = self.ev(t.args[0], env)
    if isinstance(v, str):
      k = self.int_(t.args[1], env)
      if 0 <= k < len(v):
        return v[k]
      raise Bot('index out of range')
    v = self.seq(t.args[0], env) if not isinstance(v, list) else v
    k = self.int_(t.args[1], env)
    if 0 <= k < len(v):
      return self.force(v[k])
    raise Bot('index %d out of range %d' % (k, len(v)))

  def force(self, x):
    return x.force() if isinstance(x, Lazy) else x

  def o_upd(self, t, env):
    v = list(self.seq(t.args[0], env))
    k = self.int_(t.args[1], env)
    if not 0 <= k < len(v):
      raise Bot('index out of range')
    v[k] = self.lazy(t.args[2], env)
    return v

  def o_slice(self, t, env):
    v = self.ev(t.args[0], env)
    s = []
    for x in t.args[1:]:
      y = self.ev(x, env)
      s.append(None if y is None else int(y))
    if s[2] == 0:
      raise Bot('slice step zero')
    return v[slice(*s)]

  def o_sum(self, t, env):
    n = self.count(t.args[0], env)
    if t.sort == 'poly':
      acc = Poly(())
      for k in range(n):
        v = self.num(t.args[1], env + (k,))
        acc = padd(acc, v if isinstance(v, Poly) else Poly.make([v]))
      return acc
    acc = 0
    for k in range(n):
      acc += int(self.num(t.args[1], env + (k,)))
    return F(acc) if t.sort == 'ring' else acc

  def o_prod(self, t, env):
    n = self.count(t.args[0], env)
    if t.sort == 'poly':
      acc = Poly((1,))
      for k in range(n):
        v = self.num(t.args[1], env + (k,))
        acc = pmul(acc, v if isinstance(v, Poly) else Poly.make([v]))
      return acc
    acc = 1
    for k in range(n):
      acc = acc * int(self.num(t.args[1], env + (k,)))
      if t.sort == 'ring':
        acc %= P
    return F(acc) if t.sort == 'ring' else acc

  def o_all(self, t, env):
    n = self.count(t.args[0], env)
    for k in range(n):
      if not self.cond(t.args[1], env + (k,)):
        return False
    return True

  def o_least(self, t, env):
    n = self.int_(t.args[0], env)
    if n > MAXSEQ:
      n2 = MAXSEQ
    else:
      n2 = n
    for k in range(max(0, n2)):
      if self.cond(t.args[1], env + (k,)):
        return k
    if n2 != n:
      raise EvalUnsupported('length')
    return n

  def o_first(self, t, env):
    for k in range(20000):
      if self.cond(t.args[0], env + (k,)):
        return k
    raise EvalUnsupported('loop bound')

  def o_mu(self, t, env):
    n, inits, nexts, j = t.args
    k = self.int_(n, env)
    if k > 20000:
      raise EvalUnsupported('loop bound')
    k = max(0, k)
    mf = max([x.mf for x in inits] + [x.mf - len(inits) - 1 for x in nexts] + [0])
    e = env[len(env) - mf:] if mf else ()
    try:
      key = (inits, nexts) + tuple(ek(x) for x in e)
      hash(key)
    except (TypeError, EvalUnsupported):
      key = None
    states = self.mus.get(key) if key is not None else None
    if states is None:
      states = [[self.box(x, env) for x in inits]]
      if key is not None:
        self.mus[key] = states
    sorts = [x.sort for x in inits]
    while len(states) <= k:
      s = states[-1]
      idx = len(states) - 1
      e2 = env + (idx,) + tuple(reversed(s))
      new = [self.box(x, e2) for x in nexts]
      states.append(new)
      self.budget -= len(new)
    v = states[k][j]
    if isinstance(v, BotBox):
      raise Bot(v.msg)
    if t.sort == 'ring' and isinstance(v, int) and not isinstance(v, F):
      v = F(v)
    return v

  def box(self, x, env):
    try:
      return self.deep(self.ev(x, env))
    except Bot as e:
      return BotBox(str(e))

  # dictionaries: python dicts from hashable keys to (key, value)
  def o_dempty(self, t, env):
    return {}

  def dict_(self, t, env):
    v = self.ev(t, env)
    if not isinstance(v, dict):
      raise EvalUnsupported('dictionary expected')
    return v

  def o_dset(self, t, env):
    d = dict(self.dict_(t.args[0], env))
    d[hk(self.deep(self.ev(t.args[1], env)))] = self.deep(self.ev(t.args[2], env))
    if t.sort[0] == 'set':
      return {k: v for k, v in d.items() if v}
    return d

  def o_dget(self, t, env):
    d = self.dict_(t.args[0], env)
    k = hk(self.deep(self.ev(t.args[1], env)))
    if k not in d:
      raise Bot('KeyError')
    return d[k]

  def o_dhas(self, t, env):
    d = self.dict_(t.args[0], env)
    return hk(self.deep(self.ev(t.args[1], env))) in d

  def o_ddel(self, t, env):
    d = dict(self.dict_(t.args[0], env))
    d.pop(hk(self.deep(self.ev(t.args[1], env))), None)
    return d

  def o_dkeys(self, t, env):
    d = self.dict_(t.args[0], env)
    return [unhk(k) for k in d]

  def o_keyset(self, t, env):
    return {k: True for k in self.dict_(t.args[0], env)}

  def o_dupdate(self, t, env):
    d = dict(self.dict_(t.args[0], env))
    d.update(self.dict_(t.args[1], env))
    return d

  # objects
  def o_inst(self, t, env):
    cls, names, vals = t.args
    return ('inst', cls.args[0]) + tuple((n, self.deep(self.ev(v, env))) for n, v in zip(names, vals))

  def o_fld(self, t, env):
    v = self.ev(t.args[0], env)
    if isinstance(v, tuple) and v and v[0] == 'inst':
      for n, x in v[2:]:
        if n == t.args[1]:
          return x
      raise Bot('AttributeError')
    raise EvalUnsupported('field of %s' % type(v).__name__)

  def o_py(self, t, env):
    return ('py', t.args[0])

  def o_exc(self, t, env):
    return ('exc', t.args[0])

  # bytes
  def bytes_(self, t, env):
    v = self.ev(t, env)
    if not isinstance(v, bytes):
      raise EvalUnsupported('bytes expected, got %s' % type(v).__name__)
    return v

  def o_bcat(self, t, env):
    return b''.join(self.bytes_(p, env) for p in t.args)

  def o_bjoin(self, t, env):
    return b''.join(self.force(x) for x in self.seq(t.args[0], env))

  def o_tobytes(self, t, env):
    n, w, order = t.args
    v, w = self.int_(n, env), self.int_(w, env)
    order = self.ev(order, env) if isinstance(order, T.T) else order
    try:
      return v.to_bytes(w, order)
    except OverflowError:
      raise Bot('int too big to convert')

  def o_fn(self, t, env):
    name, args = t.args
    f = FN.get(name)
    if f is not None:
      return f(self, t, args, env)
    if name.startswith('f.') or name.startswith('m.'):
      return self.floatfn(name[2:], args, env)
    if self.hook is not None:
      self.sort = t.sort
      r = self.hook(self, name, args, env)
      if r is not NotImplemented:
        return r
    raise EvalUnsupported('function %s' % name)

  def floatfn(self, op, args, env):
    a = [self.deep(self.ev(x, env)) for x in args]
    for x in a:
      if not isinstance(x, (int, float)) or isinstance(x, F):
        raise EvalUnsupported('float operation on %s' % type(x).__name__)
    try:
      f = FLOATS.get(op)
      if f is not None:
        return f(*a)
      return getattr(math, op)(*a)
    except ZeroDivisionError:
      raise Bot('ZeroDivisionError')
    except (ValueError, OverflowError) as e:
      raise Bot(str(e))
    except (AttributeError, TypeError):
      raise EvalUnsupported('float operation %s' % op)


FLOATS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'truediv': lambda a, b: a / b, 'neg': lambda a: -a, 'lt': lambda a, b: a < b,
    'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b, 'pow': lambda a, b: a**b,
    'mod': lambda a, b: a % b, 'fdiv': lambda a, b: a // b, 'abs': abs,
}


class BotBox(object):
  __slots__ = ('msg',)

  def __init__(self, msg):
    self.msg = msg


def ek(x):
  if isinstance(x, Lazy):
    x = x.force()
  if isinstance(x, bool):
    return ('b', x)
  if isinstance(x, F):
    return ('F', int(x))
  if isinstance(x, (int, str, bytes)) or x is None:
    return x
  if isinstance(x, BotBox):
    return ('bot', id(x))
  if isinstance(x, (list, tuple)) and len(x) <= 64:
    return (type(x).__name__,) + tuple(ek(y) for y in x)
  raise EvalUnsupported('key')


def unhk(k):
  if isinstance(k, Poly):
    return k
  if isinstance(k, tuple) and k and k[0] == 'list':
    return [unhk(x) for x in k[1:]]
  if isinstance(k, tuple):
    return tuple(unhk(x) for x in k)
  return k


FN = {}


def deffn(name, arity=None):
  def d(f):
    FN[name] = f
    return f
  return d


def strict(name):
  """A function of fully evaluated arguments."""
  def d(g):
    def f(E, t, args, env):
      return g(*[E.deep(E.ev(a, env)) for a in args])
    FN[name] = f
    return g
  return d


def need(v, ty):
  if not isinstance(v, ty):
    raise EvalUnsupported('argument of type %s' % type(v).__name__)
  return v


for _alg in ('blake', 'sha256', 'sha384', 'blake2b', 'sha512', 'md5', 'sha1'):
  def _h(E, t, args, env, alg=_alg):
    data = need(E.deep(E.ev(args[0], env)), bytes)
    n = {'blake': 32, 'sha256': 32, 'sha384': 48, 'blake2b': 64, 'sha512': 64, 'md5': 16, 'sha1': 20}[alg]
    out = b''
    k = 0
    while len(out) < n:
      out += hashlib.sha256(alg.encode() + b'%d:' % k + data).digest()
      k += 1
    return out[:n]
  FN[_alg] = _h


@strict('hex')
def _(b):
  return need(b, bytes).hex()


@strict('felt')
def _(x):
  if isinstance(x, int):
    return (int(x) % P).to_bytes(32, 'big')
  raise EvalUnsupported('felt')


@strict('unfelt')
def _(b):
  return F(int.from_bytes(need(b, bytes), 'big'))


@strict('toint')
def _(x):
  return int(need(x, int)) % P


@strict('frombytes')
def _(b, order):
  return int.from_bytes(need(b, bytes), order)


@strict('byteat')
def _(b, i):
  need(b, bytes)
  if 0 <= i < len(b):
    return b[i]
  raise Bot('index out of range')


@strict('xor')
def _(a, *r):
  for x in r:
    a = a ^ x
  return a


@strict('and')
def _(a, *r):
  for x in r:
    a = a & x
  return a


@strict('or')
def _(a, *r):
  for x in r:
    a = a | x
  return a


@strict('bitlen')
def _(a):
  return int(a).bit_length()


@strict('isqrt')
def _(a):
  if a < 0:
    raise Bot('isqrt of a negative number')
  return math.isqrt(a)


@strict('gcd')
def _(*a):
  return math.gcd(*[int(x) for x in a])


def egcd(a, b):
  """(x, y, d): integers or polynomials."""
  if isinstance(a, Poly) or isinstance(b, Poly):
    a = a if isinstance(a, Poly) else Poly.make([a])
    b = b if isinstance(b, Poly) else Poly.make([b])
    x0, x1, y0, y1 = Poly.make([1]), Poly(()), Poly(()), Poly.make([1])
    while b:
      q, r = pdivmod(a, b)
      a, b = b, r
      x0, x1 = x1, padd(x0, pmul(q, x1), -1)
      y0, y1 = y1, padd(y0, pmul(q, y1), -1)
    return x0, y0, a
  a, b = int(a), int(b)
  x0, x1, y0, y1 = 1, 0, 0, 1
  while b:
    q, r = divmod(a, b)
    a, b = b, r
    x0, x1 = x1, x0 - q * x1
    y0, y1 = y1, y0 - q * y1
  return x0, y0, a


@strict('egx')
def _(a, b):
  return egcd(a, b)[0]


@strict('egy')
def _(a, b):
  return egcd(a, b)[1]


@strict('powmod')
def _(b, e, m):
  if m == 0:
    raise Bot('pow() modulus zero')
  try:
    return pow(int(b), int(e), int(m))
  except ValueError:
    raise Bot('base is not invertible')


@strict('pow')
def _(b, e):
  if isinstance(b, F):
    return F(pow(int(b), e, P)) if e >= 0 else F(pow(pow(int(b), P - 2, P), -e, P))
  if e < 0:
    if b == 0:
      raise Bot('zero to a negative power')
    return float(b)**e
  if e > 100000:
    raise EvalUnsupported('power')
  return b**e


@strict('inv')
def _(x):
  if int(x) % P == 0:
    raise Bot('inverse of zero')
  return F(pow(int(x), P - 2, P))


@deffn('divzero')
def _(E, t, args, env):
  raise Bot('division by zero')


@deffn('indexerror')
def _(E, t, args, env):
  raise Bot('index out of range')


@deffn('unbound')
def _(E, t, args, env):
  raise Bot('unbound variable')


@deffn('ofLength')
def _(E, t, args, env):
  s = E.seq(args[0], env)
  if len(s) != E.int_(args[1], env):
    raise Bot('wrong number of values to unpack')
  return s


@deffn('apply')
def _(E, t, args, env):
  f = E.ev(args[0], env)
  a = [E.deep(E.ev(x, env)) for x in args[1:]]
  if not isinstance(f, FakeFn):
    raise EvalUnsupported('function value')
  if callable(getattr(f, 'impl', None)):
    return f.impl(*a)
  return by_sort(f.ret, prf('apply' + f.name, *a))


@strict('lt')
def _(a, b):
  return less(a, b)


@strict('le')
def _(a, b):
  return not less(b, a)


def less(a, b):
  if isinstance(a, F) or isinstance(b, F):
    return int(a) < int(b)
  if isinstance(a, (int, float)) and isinstance(b, (int, float)):
    return a < b
  if type(a) is type(b) and isinstance(a, (str, bytes)):
    return a < b
  if type(a) is type(b) and isinstance(a, (list, tuple)):
    for x, y in zip(a, b):
      if not same(x, y):
        return less(x, y)
    return len(a) < len(b)
  raise Bot('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


@strict('max')
def _(s):
  return extreme(s, True)


@strict('min')
def _(s):
  return extreme(s, False)


def extreme(s, big):
  if not s:
    raise Bot('max of an empty sequence')
  r = s[0]
  for x in s[1:]:
    if less(r, x) if big else less(x, r):
      r = x
  return r


@strict('sorted')
def _(s, *k):
  import functools
  return sorted(list(s), key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else (1 if less(b, a) else 0)))


@strict('minlen')
def _(s):
  return min(len(x) for x in s) if s else 0


@strict('product')
def _(s):
  import itertools
  n = 1
  for x in s:
    n *= len(x)
  if n > 100000:
    raise EvalUnsupported('product')
  return [tuple(x) for x in itertools.product(*s)]


@strict('setof')
def _(s):
  return {hk(x): True for x in s}


@strict('setunion')
def _(a, b):
  r = dict(a)
  r.update(b)
  return r


@strict('union')
def _(a, b):
  r = dict(a)
  r.update(b)
  return r


@strict('intersection')
def _(a, b):
  return {k: True for k in a if k in b}


@strict('difference')
def _(a, b):
  return {k: True for k in a if k not in b}


@strict('symmetric_difference')
def _(a, b):
  return {k: True for k in list(a) + list(b) if (k in a) != (k in b)}


@strict('subset')
def _(a, b):
  return all(k in b for k in a)


@strict('dictof')
def _(s):
  return {hk(x[0]): x[1] for x in s}


@strict('str')
def _(x):
  return pystr(x)


@strict('repr')
def _(x):
  if isinstance(x, str):
    return repr(x)
  return pystr(x)


def pystr(x):
  if isinstance(x, F):
    return str(int(x))
  if isinstance(x, (int, float, str, bytes)) or x is None:
    return str(x)
  if isinstance(x, list):
    return '[' + ', '.join(repr(y) if isinstance(y, str) else pystr(y) for y in x) + ']'
  if isinstance(x, tuple) and not isinstance(x, Poly) and not (x and x[0] in ('py', 'inst', 'opaque')):
    return '(' + ', '.join(repr(y) if isinstance(y, str) else pystr(y) for y in x) + (',)' if len(x) == 1 else ')')
  return 'str#%d' % (prf('str', x) % 10**12)


@strict('format')
def _(v, spec, conv):
  try:
    if conv == 114:
      v = repr(v)
    elif conv == 115:
      v = pystr(v)
    if isinstance(v, F):
      v = int(v)
    if isinstance(v, (int, float, str, bytes)) or v is None:
      return format(v, spec or '')
  except ValueError:
    raise Bot('format')
  return pystr(v)


@strict('strformat')
def _(f, a):
  def cv(x):
    return int(x) if isinstance(x, F) else (x if isinstance(x, (int, float, str, bytes)) or x is None else pystr(x))
  try:
    if isinstance(a, tuple) and not isinstance(a, Poly):
      return f % tuple(cv(x) for x in a)
    return f % cv(a)
  except (TypeError, ValueError):
    raise Bot('string formatting')


@strict('bytesformat')
def _(f, a):
  def cv(x):
    return int(x) if isinstance(x, F) else x
  try:
    if isinstance(a, tuple) and not isinstance(a, Poly):
      return f % tuple(cv(x) for x in a)
    return f % cv(a)
  except (TypeError, ValueError):
    raise Bot('bytes formatting')


@strict('strcat')
def _(*a):
  return ''.join(need(x, str) for x in a)


@strict('strjoin')
def _(sep, s):
  return need(sep, str).join(need(x, str) for x in s)


@strict('join')
def _(sep, s):
  return need(sep, bytes).join(need(x, bytes) for x in s)


@strict('bits')
def _(m, k):
  return bin(m)[2:].zfill(k)


@strict('str.startswith')
def _(x, *a):
  return x.startswith(*a)


@strict('str.endswith')
def _(x, *a):
  return x.endswith(*a)


def str_methods():
  def method(name):
    @strict('str.' + name)
    def _(x, *a):
      try:
        r = getattr(need(x, str), name)(*a)
      except (ValueError, TypeError):
        raise Bot('str.' + name)
      return tuple(r) if isinstance(r, list) else r
  for name in ('replace', 'find', 'index', 'count', 'isdigit', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'rjust',
               'ljust', 'isalpha', 'isalnum', 'split', 'rsplit', 'title', 'capitalize', 'rfind'):
    method(name)


str_methods()


@strict('str.zfill')
def _(s, k):
  return need(s, str).zfill(k)


@strict('strat')
def _(s, i):
  if -len(s) <= i < len(s):
    return s[i]
  raise Bot('string index out of range')


@strict('strslice')
def _(s, lo, hi, st):
  return s[lo:hi:st]


@strict('strrep')
def _(s, n):
  return s * n


@strict('substr')
def _(x, c):
  return x in c


@strict('encode')
def _(s, *a):
  return need(s, str).encode()


@strict('decode')
def _(b, *a):
  try:
    return need(b, bytes).decode()
  except UnicodeDecodeError:
    raise Bot('UnicodeDecodeError')


@strict('bytesof')
def _(s):
  try:
    return bytes([int(x) for x in s])
  except ValueError:
    raise Bot('bytes must be in range(0, 256)')


@strict('unhex')
def _(s):
  try:
    return bytes.fromhex(s)
  except ValueError:
    raise Bot('fromhex')


@strict('bin')
def _(a):
  return bin(a)


@strict('hexint')
def _(a):
  return hex(a)


@strict('parseint')
def _(s, base):
  try:
    return int(s, base)
  except (ValueError, TypeError):
    raise Bot('invalid literal for int()')


@strict('chr')
def _(a):
  return chr(a)


@strict('ord')
def _(a):
  return ord(a)


@strict('trunc')
def _(x):
  if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
    raise Bot('cannot convert float to integer')
  return int(x)


@strict('round')
def _(x, *a):
  return round(x, *a)


@strict('float')
def _(x):
  if isinstance(x, (int, float, str)) and not isinstance(x, F):
    try:
      return float(x)
    except (ValueError, OverflowError):
      raise Bot('float')
  raise EvalUnsupported('float')


@strict('log')
def _(x, *b):
  try:
    return math.log(x, *b)
  except (ValueError, ZeroDivisionError):
    raise Bot('math domain error')


@strict('truthy')
def _(x):
  if isinstance(x, F):
    return int(x) != 0
  if isinstance(x, tuple) and x and x[0] in ('inst', 'opaque', 'py'):
    raise EvalUnsupported('truth of an object')
  return bool(x)


@strict('is')
def _(a, b):
  if a is None or b is None:
    return a is b
  raise EvalUnsupported('identity')


@strict('one_object')
def _(a, b):
  return prf('one', a, b) % 2 == 1


@strict('hash')
def _(x):
  return prf('hash', x) % 2**61


@strict('hash_str')
def _(x):
  return prf('hash', x) % 2**61


@strict('json')
def _(x, sk):
  return 'json:%d:%s' % (prf('json', x), sk)


@strict('factorint')
def _(n):
  n = int(n)
  if n < 1 or n > 10**9:
    raise EvalUnsupported('factorint')
  d = {}
  f = 2
  while f * f <= n:
    while n % f == 0:
      d[f] = d.get(f, 0) + 1
      n //= f
    f += 1
  if n > 1:
    d[n] = d.get(n, 0) + 1
  return d


# polynomials
def pol(x):
  return x if isinstance(x, Poly) else Poly.make([need(x, int)])


@strict('coeffs')
def _(f):
  return [F(c) for c in pol(f)]


@strict('degree1')
def _(f):
  return len(pol(f))


@strict('leadcoeff')
def _(f):
  f = pol(f)
  if not f:
    return F(0)
  return F(f[-1])


@strict('compose')
def _(f, g):
  r = Poly.make([])
  for c in reversed(pol(f)):
    r = padd(pmul(r, pol(g)), Poly.make([c]))
  return r


@strict('polyeval')
def _(f, x):
  r = 0
  for c in reversed(pol(f)):
    r = (r * int(x) + c) % P
  return F(r)


@strict('polybytes')
def _(f):
  return b''.join(c.to_bytes(32, 'big') for c in pol(f))


@strict('felt_of_list')
def _(s):
  raise EvalUnsupported('felt_of_list')


def _rand(E, t, args, env):
  kind = E.ev(args[0], env)
  a = [E.deep(E.ev(x, env)) for x in args[1:]]
  seed = prf('rand%d' % E.salt + str(kind), *a)
  if kind == 'index':
    if a[1] < 1:
      raise Bot('choice from an empty sequence')
    return seed % a[1]
  if kind == 'int':
    if a[2] <= a[1]:
      raise Bot('empty range')
    return a[1] + seed % (a[2] - a[1])
  return by_sort(t.sort, seed)


FN['rand'] = _rand


@strict('prng')
def _(kind, seed, pos, *a):
  h = prf('prng' + str(kind), seed, pos)
  if kind == 'int':
    if a[1] <= a[0]:
      raise Bot('empty range')
    return a[0] + h % (a[1] - a[0])
  return by_sort('float', h)


@deffn('permute')
def _(E, t, args, env):
  import random
  s = list(E.seq(args[0], env))
  random.Random(prf('perm%d' % E.salt, E.deep(E.ev(args[1], env)))).shuffle(s)
  return s
