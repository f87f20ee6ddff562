"""Decides the laws of one property.

A law (a function in /verif/laws/<property>.py) states an equation between what
functions of the analysed repository compute and a specification.  Both sides are
abstracted into value-graph terms by `sa.interp`; nothing of the repository is
imported or executed.  An obligation is discharged when the normal forms of the
two sides coincide (after splitting on gate conditions).  Otherwise the two terms
are compared under random valuations: a difference where the specification is
defined is a violation, agreement leaves the obligation undecided.
"""
import ast
import json
import os
import pickle
import random
import signal
import sys
import threading
import time
import traceback
import warnings

warnings.simplefilter('ignore')

from . import report as R
from . import terms as T
from . import interp as IP
from . import loops as LP
from . import evalterm as E
from .terms import Unsupported, TRUE, FALSE, NONE, const, mk, band, bor, bnot
from .prove import Prover

LAWS = os.path.join(R.ROOT, 'laws')


class Timeout(Exception):
  pass


# ----------------------------------------------------------------------
# parameters

SMALL = [0, 1, 2, 3, -1, -2, 4, 5, 7, 8]


class Param(object):
  """A symbolic parameter: `term` for the analysis, gen(rng, ev) for a valuation."""

  def __init__(self, term, syms):
    self.term, self.syms = term, syms


SIZES = []        # lengths near the constants an obligation compares with, when they are in use


def size(rng, usual):
  return rng.choice(SIZES) if SIZES and rng.random() < 0.6 else usual


def g_int(rng):
  r = rng.random()
  if r < 0.45:
    return rng.choice(SMALL)
  if r < 0.8:
    return rng.randint(-40, 40)
  return rng.randint(-2**40, 2**40)


def g_ge(lo):
  def g(rng):
    r = rng.random()
    if r < 0.5:
      return lo + rng.randint(0, 6)
    if r < 0.85:
      return lo + rng.randint(0, 60)
    return lo + rng.randint(0, 2**36)
  return g


def g_nat(rng):
  return g_ge(0)(rng)


def g_len(rng):
  if SIZES and rng.random() < 0.6:
    return rng.choice(SIZES)
  r = rng.random()
  if r < 0.25:
    return rng.randint(0, 2)
  return rng.randint(0, 9)


def g_elt(rng):
  r = rng.random()
  if SIZES and rng.random() < 0.2:
    return E.F(0)
  if r < 0.3:
    return E.F(rng.choice([0, 1, -1, 2]))
  if r < 0.6:
    return E.F(rng.randint(0, 30))
  return E.F(rng.getrandbits(64))


def g_poly(rng):
  return E.Poly.make([g_elt(rng) for _ in range(min(70, size(rng, rng.choice([0, 1, 1, 2, 3, 4, 6]))))])


def g_bytes(rng):
  return bytes(rng.getrandbits(8) if rng.random() < 0.8 else rng.choice([0, 255]) for _ in range(size(rng, rng.choice([0, 1, 2, 4, 8, 31, 32, 33]))))


def g_str(rng):
  return ''.join(rng.choice('ab01xyz ') for _ in range(size(rng, rng.randint(0, 6))))


def g_float(rng):
  return rng.choice([0.0, 1.0, -1.5, 0.25, 3.75]) if rng.random() < 0.5 else rng.uniform(-100, 100)


AGAIN = '~'       # marks the parameters of a second run of a law

PRIMES = [2, 3, 5, 7, 11, 13, 17, 31, 101, 257, 65537, 2**31 - 1, 2**61 - 1, 2**127 - 1]
ODDPRIMES = PRIMES[1:]


class Laws(object):
  """Builds the interpreter, the injected builtins and the parameters of one law."""

  def __init__(self, prop, law, thorough=False, shape=None):
    self.shape = shape          # lengths and exponents of this size instead of all
    self.sized = 0
    self.prop, self.lawname, self.thorough = prop, law, thorough
    self.path = os.path.join(LAWS, prop + '.py')
    with open(self.path, encoding='utf-8') as f:
      self.src = f.read()
    self.tree = ast.parse(self.src)
    self.obs = []
    self.dirty = ()
    self.I = None

  # ---- loading
  def load(self):
    I = self.I = IP.Interp(R.REPO)
    I.unwind = 4 if self.shape is not None else 0
    I.law_tree = self.tree
    m = IP.Module('laws.' + self.prop, self.path)
    I.pyobj(m)
    node = None
    for s in self.tree.body:
      if isinstance(s, ast.FunctionDef) and s.name == self.lawname:
        node = s
    if node is None:
      raise R.AnalysisBroken('no law %s' % self.lawname)
    self.node = node
    opts = {}
    for s in self.tree.body:
      if isinstance(s, ast.Assign) and getattr(s.targets[0], 'id', '') == 'CONFIG':
        opts.update(ast.literal_eval(s.value))
    for d in node.decorator_list:
      if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'config':
        for k in d.keywords:
          opts[k.arg] = ast.literal_eval(k.value)
    node.decorator_list = []
    self.opts = opts
    I.primitive_memo = opts.get('memo', True)
    I.unroll = opts.get('unroll', 0)
    I.B.rng_cell(I)
    fk = opts.get('field')
    if fk:
      I.field = I.B.FieldModel(I, prime=(fk == 'prime'))
      I.polys = I.B.PolyFactory(I, I.field)
      self.gens = {'p': ('const', E.P)}
      if fk != 'prime':
        self.gens['m'] = ('const', 1)
    else:
      self.gens = {}
    self.gens['X'] = ('const', E.Poly.make([0, 1]))
    self.order = []
    self.types = {}
    st = IP.State({}, TRUE, (), {})
    scope = {'__name__': const(m.name)}
    for n in dir(self):
      if n.startswith('b_'):
        scope[n[2:]] = I.pyobj(IP.Builtin(n[2:], getattr(self, n)))
    m.scope = I.alloc(st, ('scope', scope))
    I.fr = IP.Frame(m, [m.scope])
    ann = [a.annotation for a in node.args.args]
    for a in node.args.args:
      a.annotation = None
    body = []
    for s in self.tree.body:
      if isinstance(s, ast.FunctionDef) and s.name.startswith('law_') and s.name != self.lawname:
        continue
      body.append(s)
    self.own = set([m.scope.args[0]])      # cells of the law module itself
    for s in body:
      n0 = I.ncell
      st = I.exec_block([s], st)
      if st is None:
        raise Unsupported('the law module raises on import')
      if not isinstance(s, (ast.Import, ast.ImportFrom)):
        self.own.update(range(n0 + 1, I.ncell + 1))
    self.m = m
    for cid, p in st.heap.items():
      I.base[cid] = p
    return st, ann

  # ---- parameters
  def ev_expr(self, e, st, env):
    I = self.I
    sc = I.alloc(st, ('scope', dict(env)))
    saved = I.fr
    I.fr = IP.Frame(self.m, [self.m.scope, sc])
    try:
      return I.ev(e, st)
    finally:
      I.fr = saved

  def param(self, name, a, st, env):
    """The term of one parameter; registers the generators of its symbols."""
    I = self.I
    ty, args = (a.id, []) if isinstance(a, ast.Name) else (a.func.id, a.args)
    if ty == 'Seq' or ty == 'TupOf':
      n = self.dim(name, args[1] if len(args) > 1 else None, st, env)
      sort, facts, g = self.elem(args[0], name, st, env, n)
      t = T.sym(name, ('seq', sort))
      T.SEQ_LEN[name] = n
      if facts:
        T.ELEM_FACTS[name] = facts
      self.reg(name, ('seq', n, g))
      if ty == 'TupOf':
        return mk('tupof', (t,), 'tup')
      return I.alloc(st, ('list', t))
    if ty == 'Tup':
      return mk('tup', tuple(self.param('%s.%d' % (name, i), x, st, env) for i, x in enumerate(args)), 'tup')
    if ty == 'List':
      if len(args) == 2 and isinstance(args[1], ast.Constant):
        args = [args[0]] * args[1].value
      return I.alloc(st, ('list', T.lit([self.param('%s.%d' % (name, i), x, st, env) for i, x in enumerate(args)])))
    if ty == 'Fn':
      sorts = [self.elem(x, name, st, env, None)[0] for x in args]
      t = T.sym(name, ('fun', tuple(sorts[:-1]), sorts[-1]))
      self.reg(name, ('fn', sorts[-1]))
      return t
    if ty in ('Small', 'SmallGe', 'Exp') or ty == 'Nat' and self.opts.get('sized'):
      k = self.next_size()
      if k is not None:
        return const(max(k, ast.literal_eval(args[0])) if args else k)
    sort, facts, g = self.elem(a, name, st, env, None)
    t = T.sym(name, sort, lo=facts.get('lo'), hi=facts.get('hi'), nz=facts.get('nz', False))
    if 'deglo' in facts:
      T.FACTS[name]['deglo'] = facts['deglo']
    if facts.get('prime'):
      T.FACTS[name]['prime'] = True
    if 'order' in facts:
      T.ROOTS[name] = facts['order']
    if 'blen' in facts:
      T.BYTES_LEN[name] = facts['blen']
    self.reg(name, ('gen', g))
    self.types[name] = a.id if isinstance(a, ast.Name) else a.func.id
    return t

  def reg(self, name, g):
    self.gens[name] = g
    self.order.append(name)

  def next_size(self):
    """The next length of a run at one shape: mostly the shape itself."""
    self.sized += 1
    return None if self.shape is None else self.shape + (0, 1, 0, 2)[(self.sized - 1) % 4]

  def dim(self, name, e, st, env):
    if e is None:
      k = self.next_size()
      if k is not None:
        return const(k)
      s = T.sym(name + '.n', 'int', lo=0)
      self.reg(name + '.n', ('gen', lambda rng, ev: g_len(rng)))
      return s
    return self.ev_expr(e, st, env)

  def elem(self, a, name, st, env, n):
    """(sort, facts, gen(rng, ev)) of a scalar type."""
    I = self.I
    ty, args = (a.id, []) if isinstance(a, ast.Name) else (a.func.id, a.args)
    S = lambda g: (lambda rng, ev: g(rng))
    if ty == 'Int':
      return 'int', {}, S(g_int)
    if ty == 'Nat':
      return 'int', {'lo': 0}, S(g_nat)
    if ty == 'Small':
      return 'int', {'lo': 0}, S(g_len)
    if ty == 'Pos':
      return 'int', {'lo': 1}, S(g_ge(1))
    if ty == 'IntGe':
      k = ast.literal_eval(args[0])
      return 'int', {'lo': k}, S(g_ge(k))
    if ty == 'SmallGe':
      k = ast.literal_eval(args[0])
      return 'int', {'lo': k}, S(lambda rng: max(k, size(rng, k + rng.randint(0, 5))))
    if ty == 'Exp':        # exponents
      return 'int', {'lo': 0}, S(lambda rng: rng.choice([0, 1, 2, 3, rng.randint(0, 40), rng.randint(0, 40)]))
    if ty == 'Prime':
      return 'int', {'lo': 2, 'prime': True}, S(lambda rng: rng.choice(PRIMES))
    if ty == 'SmallPrime':
      return 'int', {'lo': 2, 'prime': True}, S(lambda rng: rng.choice(PRIMES[:6]))
    if ty == 'OddPrime':
      return 'int', {'lo': 3, 'prime': True}, S(lambda rng: rng.choice(ODDPRIMES))
    if ty == 'Modulus':
      return 'int', {'lo': 2}, S(lambda rng: rng.choice(PRIMES + [4, 6, 8, 9, 12, 15, 100, 2**32]))
    if ty == 'Below':      # 0 <= x < bound
      hi = self.ev_expr(args[0], st, env)

      def g(rng, ev, hi=hi):
        h = ev(hi)
        if h <= 0:
          raise E.Bot('empty range')
        return rng.choice([0, h - 1, rng.randrange(h), rng.randrange(h)])
      return 'int', {'lo': 0, 'hi': hi}, g
    if ty == 'Bool':
      return 'bool', {}, S(lambda rng: rng.random() < 0.5)
    if ty == 'Bit':
      return 'int', {'lo': 0, 'hi': const(2)}, S(lambda rng: rng.randint(0, 1))
    if ty == 'Elt':
      return 'ring', {}, S(g_elt)
    if ty == 'NonzeroElt':
      return 'ring', {'nz': True}, S(lambda rng: g_elt(rng) or E.F(1))
    if ty == 'Root':       # an element of exactly the given (2-power) order
      k = ast.literal_eval(args[0])
      return 'ring', {'nz': True, 'order': k}, S(lambda rng: E.F(pow(E.GEN, (E.P - 1) // k * (2 * rng.randint(0, k) + 1), E.P)))
    if ty == 'Poly':
      return 'poly', {}, S(g_poly)
    if ty == 'PolyGe':     # polynomials of at least the given degree
      k = ast.literal_eval(args[0])

      def g(rng):
        return E.Poly.make([g_elt(rng) for _ in range(k + rng.choice([0, 0, 1, 2, 3]))] + [g_elt(rng) or E.F(1)])
      return 'poly', {'nz': True, 'deglo': k}, S(g)
    if ty == 'NonzeroPoly':
      return 'poly', {'nz': True}, S(lambda rng: g_poly(rng) or E.Poly.make([1]))
    if ty == 'Bytes':
      if args:
        n2 = self.ev_expr(args[0], st, env)

        def g(rng, ev, n2=n2):
          k = ev(n2)
          if rng.random() < 0.1:
            return rng.choice([b'\x00', b'\xff']) * k
          return bytes(rng.getrandbits(8) for _ in range(k))
        return 'bytes', {'blen': n2}, g
      return 'bytes', {}, S(g_bytes)
    if ty == 'Str':
      return 'str', {}, S(g_str)
    if ty == 'Float':
      return 'float', {}, S(g_float)
    if ty == 'Opaque':
      nm = ast.literal_eval(args[0])
      attrs = {}
      return ('opaque', nm), {}, S(lambda rng: ('opaque', nm, rng.randint(0, 5)))
    if ty in ('Seq', 'TupOf'):
      if len(args) > 1:
        k = self.ev_expr(args[1], st, env)
        T.ELEM_LEN[name] = k
      else:
        k = None
      s2, facts, g2 = self.elem(args[0], name, st, env, None)

      def g(rng, ev, k=k):
        c = ev(k) if k is not None else size(rng, rng.randint(0, 4))
        return [g2(rng, ev) for _ in range(c)]
      if ty == 'TupOf':
        raise Unsupported('sequence of tuples')
      return ('seq', s2), facts, g
    raise R.AnalysisBroken('parameter type %s' % ty)

  # ---- valuations
  def valuation(self, rng, sizes=()):
    SIZES[:] = sizes
    try:
      env = self.draw(rng)
    finally:
      SIZES[:] = []
    if self.dirty and rng.random() < 0.6:
      env = self.repeat(rng, env)
    if rng.random() < 0.2:
      env = self.relate(rng, env)
    return env

  def repeat(self, rng, env):
    """Gives most parameters of a second run the values of the first."""
    for _ in range(4):
      env2 = dict(env)
      names = [n for n in self.order if AGAIN in n]
      other = rng.choice(names) if names else None
      for n in names:
        if n != other and rng.random() < 0.9:
          env2[n] = env[n.replace(AGAIN, '')]
      if self.allowed(env2):
        return env2
    return env

  def relate(self, rng, env):
    """Makes one parameter equal to another of its kind, or share a part with it."""
    kinds = {}
    for n in self.order:
      if self.types.get(n) in self.FREE:
        kinds.setdefault((self.types[n], type(env[n])), []).append(n)
    pairs = [k for k in kinds.values() if len(k) > 1]
    if not pairs:
      return env
    a, b = rng.sample(rng.choice(pairs), 2)
    x, y = env[a], env[b]
    env2 = dict(env)
    r = rng.random()
    if isinstance(x, (bytes, str, E.Poly)) and r < 0.6:
      if r < 0.3:
        k = min(len(x), len(y), rng.choice([1, 4, 8, 16, 32, len(x)]))
        z = x[:k] + y[k:]
      else:
        k = min(len(x), len(y), rng.choice([1, 4, 8, 16, 32, len(x)]))
        z = y[:len(y) - k] + x[len(x) - k:]
      env2[b] = E.Poly.make(z) if isinstance(x, E.Poly) else z
    elif type(x) is int and r < 0.6:
      ms = [env[n] for n in self.order if self.types.get(n) in ('Prime', 'SmallPrime', 'OddPrime', 'Modulus')]
      env2[b] = x + rng.choice([-1, 1, 2]) * rng.choice(ms) if ms and r < 0.4 else rng.choice([-x, x + 1, x - 1])
    else:
      env2[b] = x
    return env2 if self.allowed(env2) else env

  def allowed(self, env):
    """Do changed parameters still satisfy the facts of their types?"""
    try:
      ev = E.Eval(env)
      for n in self.order:
        f = T.FACTS.get(n, {})
        v = env.get(n)
        if f.get('nz') and not v:
          return False
        if f.get('lo') is not None and isinstance(v, int) and not isinstance(v, E.F) and v < f['lo']:
          return False
        if f.get('deglo') is not None and len(v) <= f['deglo']:
          return False
        if f.get('hi') is not None and n in env and not v < ev.run(f['hi'] if isinstance(f['hi'], T.T) else const(f['hi'])):
          return False
        if n in T.BYTES_LEN and isinstance(v, bytes) and len(v) != ev.run(T.BYTES_LEN[n]):
          return False
        g = self.gens[n]
        if g[0] == 'seq' and len(v) != max(0, ev.run(g[1])):
          return False
    except (E.Bot, E.EvalUnsupported, T.Unsupported, TypeError, KeyError):
      return False
    return True

  def draw(self, rng):
    env = {}
    E.P, E.GEN = E.LARGE
    E.BIAS = rng.choice([None, None, 'true', 'true', 'false'])
    if self.opts.get('field') and rng.random() < 0.4:
      orders = [T.ROOTS.get(n) for n in self.order]
      big = max([k for k in orders if k] + [1])
      E.P, E.GEN = rng.choice([q for q in E.SMALL if (q[0] - 1) % big == 0])
    for n, g in self.gens.items():
      if g[0] == 'const':
        env[n] = E.P if n == 'p' else g[1]

    def ev(t):
      return E.Eval(env).run(t)
    for n in self.order:
      g = self.gens[n]
      if g[0] == 'gen':
        env[n] = g[1](rng, ev)
      elif g[0] == 'seq':
        k = ev(g[1])
        if k > 3000:
          raise E.Bot('too long')
        dup = rng.random() < 0.15
        xs = [g[2](rng, ev) for _ in range(max(0, k))]
        if dup and len(xs) > 1:
          xs[rng.randrange(len(xs))] = xs[rng.randrange(len(xs))]
        env[n] = xs
      elif g[0] == 'fn':
        env[n] = E.FakeFn('%s#%d' % (n, rng.getrandbits(30)), g[1])
    return env

  FREE = {'Int', 'Nat', 'Small', 'Pos', 'IntGe', 'SmallGe', 'Below', 'Elt', 'NonzeroElt', 'Poly', 'NonzeroPoly', 'Bytes', 'Str'}

  def sharpen(self, rng, env, hints):
    """Moves one parameter of a valuation onto (or next to) the boundary of a condition."""
    atoms, values = hints
    env2 = dict(env)
    k = rng.random()
    try:
      if values and (k < 0.5 or not atoms):
        names = [n for n in self.order if self.types.get(n) == 'Bytes' and isinstance(env.get(n), bytes)]
        if not names:
          return env
        n = rng.choice(names)
        v = E.Eval(env).run(rng.choice(values))
        if not isinstance(v, bytes) or len(v) != len(env[n]) or not v:
          return env
        if rng.random() < 0.7:
          j = rng.choice([0, len(v) - 1, len(v) // 2, rng.randrange(len(v))])
          v = v[:j] + bytes([v[j] ^ rng.choice([1, 128, 255])]) + v[j + 1:]
        env2[n] = v
      elif atoms:
        x, t = rng.choice(atoms)
        n = x.args[0]
        v = E.Eval(env, hook=hook).run(t)
        if isinstance(v, int) and x.sort == 'int':
          v = v + rng.choice([0, 0, 1, -1])
        old = env[n]
        if type(v) is not type(old):
          if isinstance(old, E.Poly) or isinstance(v, E.Poly) or isinstance(old, bytes) or isinstance(v, (bool, bytes)) \
              or not isinstance(v, int):
            return env
          v = E.F(v) if isinstance(old, E.F) else int(v)
        f = T.FACTS.get(n, {})
        if isinstance(v, int) and not isinstance(v, E.F):
          if f.get('lo') is not None and v < f['lo']:
            return env
          if abs(v) > 2**80:
            return env
        if f.get('nz') and not v:
          return env
        env2[n] = v
      else:
        return env
    except (E.Bot, E.EvalUnsupported, T.Unsupported, TypeError, KeyError):
      return env
    return env2 if self.allowed(env2) else env

  def sizes(self, ts):
    """Lengths around the constants that the conditions in some terms compare with."""
    out = set()
    seen, todo = set(), [(t, False) for t in ts if isinstance(t, (T.T, tuple))]
    while todo and len(seen) < 12000:
      x, inside = todo.pop()
      if isinstance(x, tuple):
        todo.extend((y, inside) for y in x)
        continue
      if inside and type(x) is int and 5 <= abs(x) <= 300:
        out.add(abs(x))
      if not isinstance(x, T.T) or (x, inside) in seen:
        continue
      seen.add((x, inside))
      inside = inside or x.op in ('z', 'eqv', 'gt0')
      todo.extend((y, inside) for y in x.args)
    return sorted({c + d for c in sorted(out)[:8] for d in (-1, 0, 1, 2, 5)})

  def hints(self, ts):
    """Equations (parameter, value) of the conditions in some terms, and their closed byte strings."""
    from .prove import solve
    atoms, values = [], []
    seen, todo = set(), [t for t in ts if isinstance(t, (T.T, tuple))]
    while todo and len(seen) < 6000:
      x = todo.pop()
      if isinstance(x, tuple):
        todo.extend(x)
        continue
      if not isinstance(x, T.T) or x in seen:
        continue
      seen.add(x)
      if x.mf == 0:
        if x.op in ('z', 'eqv', 'gt0') and len(atoms) < 60:
          try:
            y = solve(T.mk('z', x.args, 'bool') if x.op == 'gt0' else x)
          except (T.Unsupported, AttributeError, TypeError, ValueError):
            y = None
          if y is not None and y[0].op == 'sym' and self.types.get(y[0].args[0]) in self.FREE:
            atoms.append(y)
        if x.sort == 'bytes' and x.op not in ('sym', 'c') and len(values) < 60:
          values.append(x)
      todo.extend(x.args)
    return atoms, values

  # ---- builtins of the law language
  def abspc(self, st):
    return band(self.I.outer_pc(), st.pc)

  def quiet(self, f):
    saved = set(self.I.frozen)
    try:
      return f()
    finally:
      self.I.frozen = saved

  def add_ob(self, kind, st, *data):
    if self.I.loopstack:
      raise Unsupported('obligation inside a loop of a law')
    self.obs.append((kind, band(self.I.assumed, self.abspc(st)), st.ge, dict(st.known), self.I.loc[1]) + data)
    return NONE

  def b_same(self, I, st, args, kw):
    a, b = args
    fa, fb = self.quiet(lambda: (I.freeze(st, a), I.freeze(st, b)))
    return self.add_ob('same', st, fa, fb)

  def b_check(self, I, st, args, kw):
    c = I.truth(st, args[0])
    return self.add_ob('same', st, c, TRUE)

  def b_assume(self, I, st, args, kw):
    c = I.simp(st, I.truth(st, args[0]))
    if c is FALSE:
      I.assumed_dead += 1
      raise IP.PathDead()
    if c is not TRUE:
      if len(I.pcs) > 1 and not I.loopstack:
        # an assumption made by a helper of the law holds after the helper returned
        I.assumed = band(I.assumed, bor(bnot(self.abspc(st)), c))
      I.assume(st, c, True)
    return NONE

  def b_value(self, I, st, args, kw):
    return self.quiet(lambda: I.freeze(st, args[0]))

  def b_raised(self, I, st, args, kw):
    """Whether calling args[0] raises one of the named exceptions (any if none named)."""
    names = [T.cval(a) for a in args[1:]]
    fr = I.fr
    saved = fr.exits
    fr.exits = []
    I.explicit += 1
    s = st.copy()
    s.pc = TRUE
    I.pcs.append(st.pc)
    try:
      try:
        I.call(s, args[0], [], {})
      except IP.PathDead:
        pass
      exits = fr.exits
    finally:
      fr.exits = saved
      I.explicit -= 1
      I.pcs.pop()
      I.activate(st)
    c = FALSE
    for e in exits:
      if e.kind == 'raise' and (not names or any(I.exc_matches(e.value.args[0], n) for n in names)):
        c = bor(c, e.st.pc)
    return I.simp(st, c)

  def b_fresh(self, I, st, args, kw):
    """The value of args[0]() in a process that made no calls before: module state as after import."""
    s = st.copy()
    s.pc = TRUE
    keep = I.B.rng_cell(I)
    keep = keep.args[0] if isinstance(keep, T.T) else keep
    for cid in [c for c in s.heap if c in I.base and c != keep]:
      del s.heap[cid]
    fr = I.fr
    saved = fr.exits
    fr.exits = []
    I.pcs.append(st.pc)
    try:
      v = I.call(s, args[0], [], {})
      return self.quiet(lambda: I.freeze(s, v))
    except IP.PathDead:
      raise Unsupported('fresh() of a failing call')
    finally:
      fr.exits = saved
      I.pcs.pop()
      I.activate(st)

  def b_field(self, I, st, args, kw):
    return I.pyobj(I.field)

  def b_polys(self, I, st, args, kw):
    return I.pyobj(I.polys)

  def b_X(self, I, st, args, kw):
    return I.polys.X

  def b_contract(self, I, st, args, kw):
    """contract('qual', spec, 'always'|'inner'): calls of the function are replaced by spec."""
    q = T.cval(args[0])
    mode = T.cval(args[2]) if len(args) > 2 else 'always'
    I.contracts[q[5:] if q.startswith('misc.') else q] = (mode, args[1])
    return NONE

  def b_deterministic(self, I, st, args, kw):
    v = self.quiet(lambda: I.freeze(st, args[0]))
    return self.add_ob('det', st, v)

  def b_seeds(self, I, st, args, kw):
    """How often the process-wide generator has been reseeded."""
    p = I.cell(st, I.B.rng_cell(I))
    return p[1]

  def b_unroll(self, I, st, args, kw):
    return NONE

  def b_egcd(self, I, st, args, kw):
    """Specification of the extended Euclidean algorithm: (x, y, a*x + b*y)."""
    a, b = args
    s = 'poly' if 'poly' in (a.sort, b.sort) else 'int'
    x, y = T.fn('egx', (a, b), s), T.fn('egy', (a, b), s)
    return mk('tup', (x, y, T.add(T.mul(a, x), T.mul(b, y))), 'tup')

  def b_gcd(self, I, st, args, kw):
    """Specification of the Euclidean algorithm on integers."""
    return T.fn('gcd', tuple(args), 'int')

  def b_uf(self, I, st, args, kw):
    """uf('name', 'sort', args...): an uninterpreted function."""
    return T.fn('uf.' + T.cval(args[0]), tuple(self.quiet(lambda: I.freeze(st, a)) for a in args[2:]), T.cval(args[1]))

  def b_fn_name(self, I, st, args, kw):
    return const('')

  # ---- the run
  def once(self, st, ann, f, suffix):
    I = self.I
    env = {}
    args = []
    for a, n in zip(ann, self.node.args.args):
      v = self.param(n.arg + suffix, a, st, env)
      env[n.arg] = v
      args.append(v)
    try:
      I.call_plain(st, f, args, {})
      return True
    except IP.PathDead:
      return False

  def run(self):
    st, ann = self.load()
    I = self.I
    f = I.obj(I.cell(st, self.m.scope)[1][self.lawname])
    fr = IP.Frame(self.m, [self.m.scope])
    I.fr = fr
    self.base_visited = set()
    before = dict(I.base)
    done = self.once(st, ann, f, '')
    for c in self.own:
      st.heap.pop(c, None)
    self.dirty = sorted(c for c in st.heap if c in I.base and c != I.B.rng_cell(I).args[0] and
                        st.heap[c] is not I.base[c] and not (c in before and st.heap[c] == before[c]))
    if self.dirty and done and self.opts.get('history', True):
      # module state was written: the law also holds, for other parameters, in the state left behind
      I.fr = fr
      self.once(st, ann, f, AGAIN)
    if self.opts.get('failures') == 'ignore':     # the law is about calls that return
      I.oblig = [o for o in I.oblig if o[2] == LP.HANG]
      fr.exits = []
    exits = [e for e in fr.exits if e.kind == 'raise']
    for e in exits:
      self.obs.append(('never', band(I.assumed, e.st.pc), e.st.ge, dict(e.st.known), 0,
                       '%s raised at %s' % (e.value.args[0], '%s:%d' % e.line if e.line else '?')))
    for pc, cond, name, loc in I.oblig:
      self.obs.append(('oblig', pc, (), {}, loc[1], cond, '%s at %s:%d' % ((name,) + tuple(loc))))
    return self.obs


# ----------------------------------------------------------------------
# deciding

def decide_all(L, obs, deadline):
  res = []
  trials = 150 if L.thorough else 60
  groups = {}
  prover = Prover(deadline, slice_=60 if L.thorough else 10)
  late = time.time() + (deadline - time.time()) * 0.5
  for k, o in enumerate(obs):
    kind, pc, ge, known, line = o[:5]
    T.set_ge(())
    status, detail = None, ''
    try:
      if time.time() > late:
        prover.slice = 1
      if kind == 'same':
        ok = prover.equal(o[5], o[6], pc)
      elif kind == 'never':
        ok = prover.valid(bnot(pc))
      elif kind == 'oblig':
        ok = prover.valid(bor(bnot(pc), o[5]))
      else:
        ok = not nondet_in(o[5])
    except (Unsupported, IP.Recursion, RecursionError) as e:
      ok = False
      detail = 'normalisation stopped: %s' % e
    except (AttributeError, KeyError, IndexError, ValueError, AssertionError) as e:
      ok = False
      detail = 'normalisation failed: %s: %s' % (type(e).__name__, e)
    T.set_ge(())
    if ok:
      status = R.DISCHARGED
      if os.environ.get('SA_CROSS'):       # development: valuations of what was discharged
        s2, d2 = refute(L, o, trials, deadline)
        if s2 == R.VIOLATED:
          status, detail = s2, 'DISCHARGED BUT ' + d2
    else:
      status, d2 = refute(L, o, trials, deadline)
      detail = d2 + (('; ' + detail) if detail else '')
    res.append((k, kind, line, status, detail))
  return res


NONDET = {'rand', 'permute', 'address', 'addrhash', 'addrrepr', 'randhash'}


def nondet_in(t):
  return T.occurs(t, lambda x: x.op == 'fn' and x.args[0] in NONDET or
                  x.op == 'dkeys' and x.sort[0] == 'seq' and isinstance(x.args[0].sort, tuple) and x.args[0].sort[0] == 'set')


def brief(v, n=400):
  s = repr(v)
  return s if len(s) <= n else s[:n] + '...'


def show_env(L, env):
  return ', '.join('%s=%s' % (n, brief(env[n], 160) if not isinstance(env[n], E.FakeFn) else '<fn>')
                   for n in L.order if n in env)


def refute(L, o, trials, deadline):
  """Random interpretation of an obligation whose normal forms differ."""
  kind, pc = o[0], o[1]
  rng = random.Random(20240607)
  ok = tried = 0
  why = ''
  t0 = time.time()
  budget = min(30.0 if L.thorough else 12.0, max(2.0, (deadline - time.time()) * 0.4))
  nounsup = 0
  hints = L.hints((pc,) + tuple(o[5:7]))
  sizes = L.sizes((pc,) + tuple(o[5:7]))
  quick = float(os.environ.get('SA_QUICK', 6.0 if L.thorough else 1.5))
  while (ok < trials or time.time() - t0 < quick and ok < trials * 8) and tried < trials * 24:
    if time.time() - t0 > budget or time.time() > deadline:
      why = why or 'time'
      break
    tried += 1
    try:
      env = L.valuation(rng, sizes if tried % 4 == 1 else ())
    except (E.Bot, E.EvalUnsupported):
      continue
    if tried % 3 == 2 and (hints[0] or hints[1]):
      for _ in range(rng.choice([1, 1, 2, 4, 8])):
        env = L.sharpen(rng, env, hints)
    ev = E.Eval(env, hook=hook)
    try:
      try:
        if not ev.cond(pc, ()):
          continue
      except E.Bot as e:
        # a condition on the path is undefined
        if kind == 'never':
          continue
        continue
      if kind == 'never':
        return R.VIOLATED, '%s\n  for %s' % (o[5], show_env(L, env))
      if kind == 'oblig':
        try:
          good = ev.cond(o[5], ())
        except E.Bot:
          good = False
        if not good:
          return R.VIOLATED, '%s\n  for %s' % (o[6], show_env(L, env))
        ok += 1
        continue
      if kind == 'det':
        try:
          v1 = ev.run(o[5])
        except E.Bot:
          continue
        for salt in (1, 2, 3):
          ev2 = E.Eval(env, hook=hook)
          ev2.salt = salt
          try:
            v2 = ev2.run(o[5])
          except E.Bot as e:
            return R.VIOLATED, 'the result depends on a hidden input: %s or failure\n  for %s' % (brief(v1), show_env(L, env))
          if not E.same(v1, v2):
            return R.VIOLATED, 'the result depends on a hidden input: %s or %s\n  for %s' % (
                brief(v1), brief(v2), show_env(L, env))
        ok += 1
        continue
      try:
        ref = ev.run(o[6])
      except E.Bot:
        continue
      try:
        got = ev.run(o[5])
      except E.Bot as e:
        return R.VIOLATED, 'undefined (%s), specified %s\n  for %s' % (e, brief(ref), show_env(L, env))
      if not E.same(got, ref):
        return R.VIOLATED, 'computed %s, specified %s\n  for %s' % (brief(got), brief(ref), show_env(L, env))
      ok += 1
    except E.EvalUnsupported as e:
      why = str(e)
      nounsup += 1
      if nounsup > 25 and ok == 0:
        break
  return R.UNDECIDED, 'normal forms differ; no difference under %d valuations (%d tried%s)' % (
      ok, tried, '; ' + why if why else '')


def hook(ev, name, args, env):
  if name in ('address', 'addrhash', 'addrrepr', 'randhash'):
    a = [ev.deep(ev.ev(x, env)) for x in args]
    seed = E.prf('%s%d' % (name, ev.salt), *[repr(x) for x in a])
    return seed % 2**48 if name != 'addrrepr' else '<object at 0x%x>' % (seed % 2**48)
  if name.startswith('uf.'):
    sort = ev.sort
    a = [ev.deep(ev.ev(x, env)) for x in args]
    if sort == 'bool' and E.BIAS:
      # predicates that mostly hold, or mostly fail, reach the far side of conjunctions and disjunctions
      return (E.prf(name, *a) % 16 > 0) == (E.BIAS == 'true')
    return E.by_sort(sort, E.prf(name, *a))
  return NotImplemented


# ----------------------------------------------------------------------
# one law in its own process

def law_names(prop):
  path = os.path.join(LAWS, prop + '.py')
  tree = ast.parse(open(path, encoding='utf-8').read())
  out = []
  for s in tree.body:
    if isinstance(s, ast.FunctionDef) and s.name.startswith('law_'):
      out.append((s.name, ast.get_docstring(s) or s.name[4:].replace('_', ' '),
                  any(isinstance(d, ast.Call) and any(k.arg == 'thorough' for k in d.keywords) for d in s.decorator_list)))
  return out


def origins(t, out, limit=2000):
  """Repository locations that built the nodes of t."""
  seen, todo = set(), [t]
  while todo and len(seen) < limit:
    x = todo.pop()
    if isinstance(x, tuple):
      todo.extend(x)
      continue
    if not isinstance(x, T.T) or x in seen:
      continue
    seen.add(x)
    loc = T.ORIGIN.get(x)
    if loc and not loc[0].startswith('..') and 'laws' not in loc[0]:
      out.add(loc)
    todo.extend(x.args)


def run_law(prop, law, thorough, limit, shape=None):
  """Returns a dict describing the outcome."""
  sys.setrecursionlimit(20000)
  t0 = time.time()
  deadline = t0 + limit
  L = Laws(prop, law, thorough, shape)
  out = dict(law=law, obs=[], error=None, visited={}, notes=[], sized=0)

  def alarm(sig, frm):
    raise Timeout()
  try:
    try:
      obs = L.run()
      out['t_interp'] = time.time() - t0
      res = decide_all(L, obs, deadline)
      for k, kind, line, status, detail in res:
        where = ''
        if status == R.VIOLATED and obs[k][0] == 'same':
          s = set()
          origins(obs[k][5], s)
          s2 = set()
          origins(obs[k][6], s2)
          d = sorted(s - s2) or sorted(s)
          where = '; '.join('%s:%d' % x for x in d[:8])
        out['obs'].append(dict(k=k, kind=kind, line=line, status=status, detail=detail, where=where))
    except Timeout:
      out['error'] = 'timeout'
    except (Unsupported, IP.Recursion, RecursionError) as e:
      out['error'] = '%s: %s' % (type(e).__name__, e if not isinstance(e, IP.Recursion) else e.func.qual)
      out['error'] += ' (at %s:%d)' % L.I.loc if L.I else ''
    except E.EvalUnsupported as e:
      out['error'] = 'valuation: %s' % e
    except R.AnalysisBroken as e:
      out['error'] = 'broken: %s' % e
    except Exception as e:
      out['error'] = 'internal: %s: %s' % (type(e).__name__, str(e)[:200])
      out['trace'] = traceback.format_exc()
  except Timeout:
    out['error'] = 'timeout'
  if L.I is not None:
    out['visited'] = {q: w for q, w in L.I.visited.items() if w and isinstance(w, str) and not w.startswith('..')}
    out['contracts'] = sorted(L.I.contracts)
    out['hits'] = sorted(L.I.hits)
    out['inner'] = sorted(q for q, c in L.I.contracts.items() if c[0] == 'inner')
    out['terms'] = len(T._table)
    out['notes'] = L.I.notes[:5] + (['state written: %d' % len(L.dirty)] if L.dirty else [])
  out['sized'] = L.sized
  out['wall'] = time.time() - t0
  return out


def child(prop, law, thorough, limit, wfd, shape=None):
  threading.stack_size(512 * 1024 * 1024)
  box = {}

  def go():
    box['r'] = run_law(prop, law, thorough, limit, shape)
  import resource
  try:
    resource.setrlimit(resource.RLIMIT_AS, (6 * 2**30, 6 * 2**30))
  except (ValueError, OSError):
    pass
  t = threading.Thread(target=go)
  t.daemon = True
  t.start()
  t.join(limit + 5)
  r = box.get('r')
  if r is None:
    r = dict(law=law, obs=[], error='timeout' if t.is_alive() else 'died', visited={}, notes=[], wall=limit)
  with os.fdopen(wfd, 'wb') as f:
    pickle.dump(r, f)
  os._exit(0)


def shapes(r):
  """Sizes at which an undecided law is looked at again: small ones and those next to the
  constants in the code it reached."""
  found = set()
  for where in r['visited'].values():
    path, _, line = where.rpartition(':')
    try:
      tree = parsed(os.path.join(R.REPO, path))
    except (OSError, SyntaxError):
      continue
    for n in ast.walk(tree):
      if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n.lineno == int(line):
        for c in ast.walk(n):
          if isinstance(c, ast.Constant) and type(c.value) is int and 4 < c.value <= 64:
            found.add(c.value)
            found.add(c.value + 1)
  return [1, 2, 3, 5] + sorted(found)[:8]


_trees = {}


def parsed(path):
  if path not in _trees:
    with open(path, encoding='utf-8') as f:
      _trees[path] = ast.parse(f.read())
  return _trees[path]


def run_all(prop, laws, thorough, limit, workers=8):
  """laws: names, or (name, shape) pairs."""
  results = {}
  todo = list(laws)
  live = {}
  while todo or live:
    while todo and len(live) < workers:
      law = todo.pop(0)
      rfd, wfd = os.pipe()
      pid = os.fork()
      if pid == 0:
        os.close(rfd)
        try:
          if isinstance(law, tuple):
            child(prop, law[0], thorough, limit, wfd, law[1])
          else:
            child(prop, law, thorough, limit, wfd)
        finally:
          os._exit(1)
      os.close(wfd)
      live[pid] = (law, rfd, time.time())
    import select
    fds = {rfd: pid for pid, (law, rfd, t) in live.items()}
    rd, _, _ = select.select(list(fds), [], [], 1.0)
    for fd in rd:
      pid = fds[fd]
      law = live[pid][0]
      data = b''
      while True:
        b = os.read(fd, 1 << 16)
        if not b:
          break
        data += b
      os.close(fd)
      os.waitpid(pid, 0)
      del live[pid]
      try:
        results[law] = pickle.loads(data)
      except Exception:
        results[law] = dict(law=law, obs=[], error='worker died', visited={}, notes=[], wall=0)
    now = time.time()
    for pid, (law, rfd, t) in list(live.items()):
      if now - t > limit + 20:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(rfd)
        del live[pid]
        results[law] = dict(law=law, obs=[], error='timeout', visited={}, notes=[], wall=now - t)
  return results


TECH = ('value-graph normal-form comparison: the functions named by each law are abstracted into gated value graphs '
        '(joins as gated choices, loops as closed forms or recurrences) and compared with the specification; '
        'differences are confirmed by random interpretation of the graphs before they are reported')


def trust(r, base):
  """A law states what a function does in terms of the functions it calls (its contracts). Where one of those is no longer
  called and functions the law did not reach before are called instead, the law does not apply as it is written:
  a difference it shows is undecided."""
  gone = set(base.get('hits', {}).get(r['law'], ())) - set(r.get('hits', ()))
  new = set(r['visited']) - set(base.get('functions', ()))
  if not gone or not (new or gone & set(r.get('inner', ()))):
    return
  for o in r['obs']:
    if o['status'] == R.VIOLATED:
      o['status'] = R.UNDECIDED
      o['detail'] = 'not called any more: %s; called instead: %s; %s' % (
          ', '.join(sorted(gone)), ', '.join(sorted(new)) or 'nothing', o['detail'])


def run(prop, only=None, verbose=False):
  tier = os.environ.get('VERIF_TIER', 'quick')
  thorough = tier == 'thorough' or '--thorough' in sys.argv
  rep = R.Report(prop, 'other', TECH)
  laws = law_names(prop)
  names = [n for n, d, th in laws if (only is None or n in only)]
  limit = 250 if thorough else 90
  res = run_all(prop, names, thorough, limit)
  again = []
  for n in names:
    r = res[n]
    if r.get('error') and not r['error'].startswith('broken') or any(o['status'] == R.UNDECIDED for o in r['obs']):
      if r.get('sized') or (r.get('error') or '').startswith('Recursion'):
        again += [(n, k) for k in shapes(r)] if r.get('sized') else [(n, 1)]
  res2 = run_all(prop, again, thorough, 60 if thorough else 20) if again else {}
  nvis = {}
  terms = 0
  base_file = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'laws', 'baseline.json')
  try:
    with open(base_file) as f:
      base = json.load(f)
  except OSError:
    base = {}
  if os.environ.get('SA_BASELINE'):       # development: tools/mkbaseline.sh
    base[prop] = dict(functions=sorted(set(q for r in res.values() for q in r['visited'])),
                      hits=dict((n, res[n].get('hits', [])) for n in names))
    with open(base_file, 'w') as f:
      json.dump(base, f, indent=0, sort_keys=True)
  for r in list(res.values()) + list(res2.values()):
    trust(r, base.get(prop, {}))
  for n, doc, _ in laws:
    if n not in res:
      continue
    r = res[n]
    terms += r.get('terms', 0) or 0
    anchors = sorted('%s (%s)' % (q, w) for q, w in r['visited'].items())
    nvis.update(r['visited'])
    where = ', '.join(anchors[:6]) or n
    if r['error']:
      rep.add('%s' % n, where, doc, R.UNDECIDED, r['error'])
      if verbose and r.get('trace'):
        print(r['trace'])
    cnt = {}
    for o in r['obs']:
      base = '%s/%s' % (n, o['kind'])
      cnt[base] = cnt.get(base, 0) + 1
      key = '%s#%d' % (base, cnt[base])
      detail = o['detail']
      if o['status'] == R.VIOLATED:
        detail = 'law %s line %d of laws/%s.py: %s' % (n, o['line'], prop, detail)
        if o['where']:
          detail += '\n  computed at %s' % o['where']
      rep.add(key, where, doc, o['status'], detail)
    for n2, k in again:
      r2 = res2[(n2, k)]
      if n2 != n:
        continue
      if verbose:
        print('   %-40s %5.1fs %s %s' % ((n, k), r2['wall'], r2['error'], {s: sum(o['status'] == s for o in r2['obs']) for s in set(o['status'] for o in r2['obs'])}))
      for i, o in enumerate(r2['obs']):
        if o['status'] == R.VIOLATED:
          rep.add('%s@%d/%s#%d' % (n, k, o['kind'], i), where, doc, o['status'],
                  'law %s line %d of laws/%s.py, lengths %d: %s' % (n, o['line'], prop, k, o['detail']))
    if verbose:
      print('%-40s %5.1fs %6d terms %s' % (n, r['wall'], r.get('terms', 0) or 0, r.get('notes')))
  if prop == 'C02' and only is None:
    from . import reseed
    reseed.lint(rep, R)
  rep.coverage.update(laws=len(names), bounded_runs=len(again), functions_analysed=len(nvis), functions=sorted(nvis)[:200], term_nodes=terms)
  rep.assumptions = [
      'inputs range over the parameter types written in laws/%s.py' % prop,
      'Python integers, lists, dictionaries, bytes and the hash functions behave as modelled in sa/builtins_.py',
      'callables passed as parameters are pure functions'] 
  return rep.finish()


if __name__ == '__main__':
  sys.setrecursionlimit(20000)
  sys.exit(run(sys.argv[1], set(a for a in sys.argv[2:] if not a.startswith('-')) or None, verbose=True))
