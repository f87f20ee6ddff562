"""Loops as recurrences over the locations they change, and their closed forms.

A loop is abstracted by the values its changed locations have at the start of
iteration i.  The set of changed locations and the shapes of their values are
found by a fixpoint; recurrences with a recognised form (induction variables,
accumulations, maps, element-wise updates, quantifiers) are replaced by their
closed form, the others stay recurrences (`mu`).  Ways out of the loop become
the least index at which they are taken.
"""
import ast

from . import terms as T
from .terms import (Unsupported, TooBig, const, TRUE, FALSE, NONE, mk, band, bor, bnot)
from . import interp as IP

HANG = 'a loop that never ends'

UNROLL = 64
INF = None


def inf():
  return mk('sym', ('INFINITY',), 'int')


class NeedPeel(Exception):
  pass


class Undecided(Exception):
  pass


# ----------------------------------------------------------------------
# entry points

def for_stmt(I, s, st):
  if isinstance(s, ast.AsyncFor):
    raise Unsupported('async for')
  loc = I.loc

  def run(x, container, seq):
    n = T.length(seq)

    def step(q, k):
      I.loc = loc
      T.CUR[0] = loc
      v = I.interior(q, container, k, T.at(seq, k))
      I.assign(s.target, v, q)
      return I.exec_block(s.body, q)
    return loop(I, x, n, step, None, s.orelse, (container, seq))

  it = I.ev(s.iter, st)
  return over(I, st, it, run)


def over(I, st, it, run):
  """Calls run(state, container, sequence) for the iterable it."""
  if it.op == 'ite' and I.is_ite(it):
    c, a, b = it.args
    return I.exec_branch(st, c, lambda x: over(I, x, a, run), lambda x: over(I, x, b, run))
  container = it if it.op in ('ref', 'iref') and I.kind(st, it) == 'list' else None
  seq = I.iter_seq(st, it)

  def go(x, seq):
    if seq.op == 'ite' and container is None and lit_leaf(seq):
      c, a, b = seq.args
      return I.exec_branch(x, c, lambda y: go(y, a), lambda y: go(y, b))
    return run(x, container, seq)
  return go(st, seq)


def lit_leaf(seq):
  if seq.op == 'ite':
    return lit_leaf(seq.args[1]) or lit_leaf(seq.args[2])
  return seq.op == 'lit'


def while_stmt(I, s, st):
  loc = I.loc

  def test(q):
    I.loc = loc
    T.CUR[0] = loc
    return I.truth(q, I.ev(s.test, q))

  def step(q, k):
    return I.exec_block(s.body, q)
  return loop(I, st, None, step, test, s.orelse, None)


def inner_frame(I, st):
  fr = I.fr
  scope = I.alloc(st, ('scope', {}))
  f2 = IP.Frame(fr.func, fr.scopes + [scope])
  f2.exits = fr.exits
  f2.yields = fr.yields
  return f2


def each(I, st, it, body):
  """for x in it: body(state, x) -> state"""
  def run(x, container, seq):
    def step(q, k):
      return body(q, I.interior(q, container, k, T.at(seq, k)))
    return loop(I, x, T.length(seq), step, None, [], (container, seq))
  return over(I, st, it, run)


def comprehension(I, e, st, kind):
  fr = I.fr
  first = I.ev(e.generators[0].iter, st)
  I.fr = inner_frame(I, st)
  try:
    if kind == 'list':
      res = I.alloc(st, ('list', T.lit(())))
    else:
      res = I.alloc(st, (kind, T.dempty(kind)))

    def gen(k, s):
      if k == len(e.generators):
        if kind == 'list':
          I.B.list_append(I, s, res, I.ev(e.elt, s))
        elif kind == 'set':
          I.store_dict(s, res, T.dset(I.dict_of(s, res), I.key(s, I.ev(e.elt, s)), TRUE))
        else:
          kk = I.key(s, I.ev(e.key, s))
          v = I.ev(e.value, s)
          I.store_dict(s, res, T.dset(I.dict_of(s, res), kk, v))
        return s
      g = e.generators[k]
      it = first if k == 0 else I.ev(g.iter, s)

      def body(q, x):
        I.assign(g.target, x, q)

        def conds(m, y):
          if m == len(g.ifs):
            return gen(k + 1, y)
          c = I.truth(y, I.ev(g.ifs[m], y))
          return I.exec_branch(y, c, lambda z: conds(m + 1, z), lambda z: z)
        return conds(0, q)
      return each(I, s, it, body)
    r = gen(0, st)
  finally:
    I.fr = fr
  if r is None:
    raise IP.PathDead()
  if r is not st:
    st.become(r)
  return res


def _consume(I, st, seq, body):
  fr = I.fr
  I.fr = inner_frame(I, st)
  try:
    def step(q, k):
      return body(q, T.at(seq, k))
    r = loop(I, st, T.length(seq), step, None, [], (None, seq))
  finally:
    I.fr = fr
  if r is None:
    raise IP.PathDead()
  if r is not st:
    st.become(r)


def map_seq(I, st, seq, f):
  res = I.alloc(st, ('list', T.lit(())))

  def body(s, x):
    I.B.list_append(I, s, res, f(s, x))
    return s
  _consume(I, st, seq, body)
  return I.seq_of(st, res)


def filter_seq(I, st, f, seq):
  res = I.alloc(st, ('list', T.lit(())))

  def body(s, x):
    c = I.truth(s, x if f is NONE else I.call(s, f, [x], {}))

    def yes(y):
      I.B.list_append(I, y, res, x)
      return y
    return I.exec_branch(s, c, yes, lambda y: y)
  _consume(I, st, seq, body)
  return I.seq_of(st, res)


def fold(I, st, seq, init, f):
  if seq.op == 'ite':
    c, a, b = seq.args
    return I.branch(st, c, lambda s: fold(I, s, a, init, f), lambda s: fold(I, s, b, init, f))
  cell = I.alloc(st, ('scope', {'acc': init}))

  def body(s, x):
    d = I.cell(s, cell)[1]
    v = f(s, d['acc'], x)
    I.put(s, cell, ('scope', {'acc': v}))
    return s
  _consume(I, st, seq, body)
  return I.cell(st, cell)[1]['acc']


def scan(I, st, seq, init, f):
  """itertools.accumulate"""
  res = I.alloc(st, ('list', T.lit(())))
  if init is None or init is NONE:
    def go(s, q):
      if q.op == 'ite':
        return I.branch(s, q.args[0], lambda z: go(z, q.args[1]), lambda z: go(z, q.args[2]))
      empty = I.simp(s, T.is_zero(T.length(q)))
      if empty is TRUE:
        return NONE

      def some(z):
        h = T.at(q, const(0))
        I.B.list_append(I, z, res, h)
        rest(z, T.slice_(q, const(1), None, None), h)
        return NONE
      return I.branch(s, empty, lambda z: NONE, some)
  else:
    def go(s, q):
      I.B.list_append(I, s, res, init)
      rest(s, q, init)
      return NONE

  def rest(s, q, h):
    cell = I.alloc(s, ('scope', {'acc': h}))

    def body(z, x):
      v = f(z, I.cell(z, cell)[1]['acc'], x)
      I.put(z, cell, ('scope', {'acc': v}))
      I.B.list_append(I, z, res, v)
      return z
    _consume(I, s, q, body)
  go(st, seq)
  return I.seq_of(st, res)


# ----------------------------------------------------------------------
# the loop driver

def loop(I, st, n, step, test, orelse, iterated):
  fr = I.fr
  saved_pc = st.pc
  st.pc = TRUE
  mark = len(fr.exits)
  dead = I.assumed_dead
  normals, breaks = [], []
  I.lpcs.append((len(I.stack), saved_pc))
  try:
    run(I, st, n, step, test, iterated, normals, breaks, 0)
  finally:
    I.lpcs.pop()
  ends = []
  if normals and orelse:
    x = I.join_states(normals)
    I.activate(x)
    x = I.exec_block(orelse, x)
    if x is not None:
      ends.append(x)
  else:
    ends.extend(normals)
  ends.extend(breaks)
  for e in fr.exits[mark:]:
    e.st.pc = band(saved_pc, e.st.pc)
  if not ends:
    if test is not None and len(fr.exits) == mark and I.assumed_dead == dead:
      pc = band(I.assumed, band(I.outer_pc(), saved_pc))
      if pc is not FALSE:
        I.oblig.append((pc, FALSE, HANG, I.loc))
    return None
  out = I.join_states(ends)
  out.pc = band(saved_pc, out.pc)
  st.become(out)
  I.activate(st)
  return st


def one(I, st, step, test, k):
  """One iteration: (state when the test fails, states that go on, break states).

  Other exits stay in fr.exits."""
  fr = I.fr
  mark = len(fr.exits)
  sfalse, r = None, None
  try:
    if test is not None:
      c = I.simp(st, test(st))
      if c is FALSE:
        sfalse = st
      else:
        if c is not TRUE:
          sfalse = I.fork(st, c, False)
          I.assume(st, c, True)
        r = step(st, k)
    else:
      r = step(st, k)
  except IP.PathDead:
    r = None
  ends = [] if r is None else [r]
  breaks, keep = [], []
  for e in fr.exits[mark:]:
    if e.kind == 'continue':
      ends.append(e.st)
    elif e.kind == 'break':
      breaks.append(e.st)
    else:
      keep.append(e)
  fr.exits[mark:] = keep
  return sfalse, ends, breaks


def run(I, st, n, step, test, iterated, normals, breaks, depth):
  if n is not None:
    n = _decide(I, st, n)
    if n.op == 'c':
      k = int(T.cval(n))
      if k <= max(UNROLL, I.unroll):
        return unroll(I, st, k, step, normals, breaks, iterated)
  elif try_unroll(I, st, step, test, normals, breaks):
    return
  snap = snapshot(I, st, normals, breaks)
  try:
    general(I, st, n, step, test, iterated, normals, breaks)
    return
  except NeedPeel:
    restore(I, st, snap, normals, breaks)
  if depth >= 2:
    raise Unsupported('loop-carried variable of varying kind')
  # peel the first iteration
  def shifted(q, k):
    return step(q, T.add(k, const(1)))
  if n is None:
    sfalse, ends, br = one(I, st, step, test, const(0))
    if sfalse is not None:
      normals.append(sfalse)
    breaks.extend(br)
    if ends:
      x = I.join_states(ends)
      sub(I, x, None, shifted, test, iterated, normals, breaks, depth + 1)
    return
  c = I.simp(st, T.gt0(n))
  if c is not TRUE:
    normals.append(I.fork(st, c, False))
    I.assume(st, c, True)
  _, ends, br = one(I, st, step, None, const(0))
  breaks.extend(br)
  if ends:
    x = I.join_states(ends)
    sub(I, x, T.sub(n, const(1)), shifted, None, iterated, normals, breaks, depth + 1)


def sub(I, x, n, step, test, iterated, normals, breaks, depth):
  """run() on a state whose pc is relative to an outer start."""
  fr = I.fr
  pc = x.pc
  x.pc = TRUE
  I.activate(x)
  mark, m1, m2 = len(fr.exits), len(normals), len(breaks)
  run(I, x, n, step, test, iterated, normals, breaks, depth)
  for e in fr.exits[mark:]:
    e.st.pc = band(pc, e.st.pc)
  for s in normals[m1:] + breaks[m2:]:
    s.pc = band(pc, s.pc)


def _decide(I, st, n):
  while n.op == 'ite':
    c = I.simp(st, n.args[0])
    if c is TRUE:
      n = n.args[1]
    elif c is FALSE:
      n = n.args[2]
    else:
      break
  return n


def snapshot(I, st, normals, breaks):
  return (st.copy(), len(I.fr.exits), len(I.oblig), set(I.frozen), len(I.notes), len(normals), len(breaks))


def restore(I, st, snap, normals, breaks):
  s, ne, no, fz, nn, nd, nb = snap
  st.become(s.copy())
  del normals[nd:]
  del breaks[nb:]
  del I.fr.exits[ne:]
  del I.oblig[no:]
  I.frozen = set(fz)
  I.activate(st)


def unroll(I, st, k, step, normals, breaks, iterated):
  for j in range(k):
    _, ends, br = one(I, st, step, None, const(j))
    breaks.extend(br)
    if not ends:
      return
    x = I.join_states(ends) if len(ends) > 1 else ends[0]
    if x is not st:
      st.become(x)
    I.activate(st)
  normals.append(st)


def try_unroll(I, st, step, test, normals, breaks):
  """Unrolls a while loop all of whose exit decisions are constant."""
  snap = snapshot(I, st, normals, breaks)
  nb = len(breaks)
  s = st.copy()
  mark = len(I.fr.exits)
  budget = I.steps + 20000 + 2000 * I.unroll
  try:
    for j in range(max(UNROLL, I.unroll) + 20):
      sfalse, ends, br = one(I, s, step, test, const(j))
      if sfalse is not None and (ends or br):
        raise Undecided()
      if sfalse is not None:
        st.become(sfalse)
        normals.append(st)
        return True
      breaks.extend(br)
      if not ends:
        return True
      if j > 16 and ends[0].pc is not TRUE or I.steps > budget:
        raise Undecided()
      s = I.join_states(ends) if len(ends) > 1 else ends[0]
      I.activate(s)
  except (Undecided, Unsupported):
    pass
  del breaks[nb:]
  restore(I, st, snap, normals, breaks)
  return False


# ----------------------------------------------------------------------
# shapes of changed locations

class Leaf(object):
  """A loop-carried term."""
  def __init__(self, sort, name='phi'):
    self.sort = sort
    self.sym = T.fresh(name, sort)
    self.init = None
    self.next = None


class Same(object):
  def __init__(self, v):
    self.v = v


class Mark(object):
  def __init__(self):
    self.sym = T.fresh('undef', 'any')


class Tup(object):
  def __init__(self, kids):
    self.kids = kids


class Inst(object):
  def __init__(self, cls, names, kids):
    self.cls, self.names, self.kids = cls, names, kids


class Cell(object):
  """A rebound reference to a list, dictionary or set."""
  def __init__(self, kind, leaf):
    self.kind, self.leaf = kind, leaf
    self.cid = None
    self.r0 = None


def get_loc(I, s, loc):
  cid, key = loc
  p = s.heap.get(cid)
  if p is None:
    p = I.base[cid]
  k = p[0]
  if k == 'scope':
    return p[1].get(key) or IP.unbound()
  if k == 'inst':
    return p[2].get(key) or IP.unbound()
  if k == 'iter':
    return p[1] if key == '@seq' else p[2]
  return p[1]


def set_loc(I, s, loc, v):
  cid, key = loc
  p = s.heap.get(cid)
  if p is None:
    p = I.base[cid]
  k = p[0]
  if k == 'scope':
    d = dict(p[1])
    d[key] = v
    s.heap[cid] = ('scope', d)
  elif k == 'inst':
    d = dict(p[2])
    d[key] = v
    s.heap[cid] = ('inst', p[1], d)
  elif k == 'iter':
    s.heap[cid] = ('iter', v, p[2]) if key == '@seq' else ('iter', p[1], v)
  else:
    s.heap[cid] = (k, v)


def diff_locs(I, h0, h1, limit):
  """Locations of old cells whose payload differs."""
  out = []
  for cid, p1 in h1.items():
    if cid > limit and cid not in h0:
      continue
    p0 = h0.get(cid)
    if p0 is None:
      p0 = I.base.get(cid)
      if p0 is None:
        continue
    if p0 is p1:
      continue
    k = p0[0]
    if k == 'scope':
      a, b = p0[1], p1[1]
      for n in b:
        if a.get(n) is not b[n]:
          out.append((cid, n))
      for n in a:
        if n not in b:
          out.append((cid, n))
    elif k == 'inst':
      a, b = p0[2], p1[2]
      for n in b:
        if a.get(n) is not b[n]:
          out.append((cid, n))
    elif k == 'iter':
      if p0[1] is not p1[1]:
        out.append((cid, '@seq'))
      if p0[2] is not p1[2]:
        out.append((cid, '@pos'))
    else:
      if p0[1] is not p1[1]:
        out.append((cid, None))
  return out


SCALAR = ('bool', 'int', 'ring', 'poly', 'float', 'str', 'bytes')


def is_py(v):
  return v.op == 'py'


class Loop(object):
  def __init__(self, I, st, limit, pymark):
    self.I, self.st, self.limit, self.pymark = I, st, limit, pymark
    self.trees = {}
    self.order = []
    self.sol = {}        # phi symbol -> closed form in i
    self.hyp = {}        # phi symbol -> assumed nonnegative

  def build(self, v0, s0, v1, s1):
    I = self.I
    if v0 is v1:
      return Same(v0)
    if v0.op == 'fn' and v0.args[0] == 'unbound' or T.has_unbound(v0):
      return Mark()
    if v0.op == 'tup' and v1.op == 'tup' and len(v0.args) == len(v1.args):
      return Tup([self.build(a, s0, b, s1) for a, b in zip(v0.args, v1.args)])
    if v0.op == 'inst' and v1.op == 'inst' and v0.args[0] is v1.args[0] and v0.args[1] == v1.args[1]:
      return Inst(v0.args[0], v0.args[1], [self.build(a, s0, b, s1) for a, b in zip(v0.args[2], v1.args[2])])
    if v0.sort == 'ref' and v1.sort == 'ref':
      try:
        k0, k1 = kind_of(I, s0, v0), kind_of(I, s1, v1)
      except Unsupported:
        return Mark()
      if k0 == k1 and k0 in ('list', 'dict', 'set'):
        a, b = content(I, s0, v0, k0), content(I, s1, v1, k0)
        c = Cell(k0, Leaf(T.join_value_sort(a.sort, b.sort), 'phi'))
        c.r0 = v0
        return c
      return Mark()
    if v0.sort in ('ref', 'py', 'tup', 'none', 'any') or v1.sort in ('ref', 'py', 'tup', 'none', 'any'):
      if v0.sort == v1.sort == 'any' or (v0.sort == v1.sort == 'tup'):
        return Leaf(v0.sort)
      return Mark()
    a, b = self.content_sort(v0, s0), self.content_sort(v1, s1)
    js = T.join_value_sort(a, b)
    if js == 'any':
      if isinstance(v0.sort, tuple) and isinstance(v1.sort, tuple) and v0.sort[0] == v1.sort[0]:
        js = (v0.sort[0], 'any')
      else:
        return Mark()
    return Leaf(js)

  def fits(self, tree, v0, v1, s1):
    """The tree adjusted so that it also describes v1."""
    I = self.I
    if isinstance(tree, Mark):
      return tree
    if isinstance(tree, Same):
      if tree.v is v1:
        return tree
      return self.build(v0, self.st, v1, s1)
    if isinstance(tree, Tup):
      if v1.op == 'tup' and len(v1.args) == len(tree.kids):
        kids = [self.fits(t, a, b, s1) for t, a, b in zip(tree.kids, v0.args, v1.args)]
        if all(x is y for x, y in zip(kids, tree.kids)):
          return tree
        return Tup(kids)
      return Mark()
    if isinstance(tree, Inst):
      if v1.op == 'inst' and v1.args[0] is tree.cls and v1.args[1] == tree.names:
        kids = [self.fits(t, a, b, s1) for t, a, b in zip(tree.kids, v0.args[2], v1.args[2])]
        if all(x is y for x, y in zip(kids, tree.kids)):
          return tree
        return Inst(tree.cls, tree.names, kids)
      return Mark()
    if isinstance(tree, Cell):
      if v1.sort != 'ref' or kind_of(I, s1, v1) != tree.kind:
        return Mark()
      s = content(I, s1, v1, tree.kind).sort
      js = T.join_value_sort(tree.leaf.sort, s)
      if js != tree.leaf.sort and s != (s[0], 'any'):
        if js == 'any':
          js = (tree.kind if tree.kind != 'list' else 'seq', 'any')
        c = Cell(tree.kind, Leaf(js))
        c.r0 = tree.r0
        return c
      return tree
    # Leaf
    vs = self.content_sort(v1, s1)
    if vs == tree.sort:
      return tree
    if v1.sort in ('ref', 'py', 'none') or (v1.sort in ('tup', 'any') and tree.sort not in ('tup', 'any')):
      return Mark()
    js = T.join_value_sort(tree.sort, vs)
    if js == tree.sort:
      return tree
    if js == 'any' and tree.sort != 'any':
      if isinstance(tree.sort, tuple) and isinstance(vs, tuple) and tree.sort[0] == vs[0]:
        if tree.sort[1] == 'any':
          return tree
        return Leaf((tree.sort[0], 'any'))
      return Mark()
    return Leaf(js)

  def content_sort(self, v, s):
    """The sort of a carried value once nested lists are taken by content."""
    if isinstance(v.sort, tuple) and IP.has_ref(v):
      return self.I.freeze(s, v).sort
    return v.sort

  def install(self, tree, s):
    I = self.I
    if isinstance(tree, Same):
      return tree.v
    if isinstance(tree, Mark):
      return tree.sym
    if isinstance(tree, Leaf):
      return self.sol.get(tree.sym, tree.sym)
    if isinstance(tree, Tup):
      return mk('tup', tuple(self.install(k, s) for k in tree.kids), 'tup')
    if isinstance(tree, Inst):
      return I.mkinst(tree.cls, tree.names, [self.install(k, s) for k in tree.kids])
    v = self.sol.get(tree.leaf.sym, tree.leaf.sym)
    r = I.alloc(s, (tree.kind, v))
    tree.cid = r.args[0]
    return r

  def leaves(self, tree, out):
    if isinstance(tree, Leaf):
      out.append(tree)
    elif isinstance(tree, Cell):
      out.append(tree.leaf)
    elif isinstance(tree, (Tup, Inst)):
      for k in tree.kids:
        self.leaves(k, out)

  def marks(self, tree, out):
    if isinstance(tree, Mark):
      out.append(tree.sym)
    elif isinstance(tree, (Tup, Inst)):
      for k in tree.kids:
        self.marks(k, out)

  def values(self, tree, v, s, put):
    """Calls put(leaf, term) for the leaves of tree in value v."""
    I = self.I
    if isinstance(tree, Leaf):
      x = I.freeze(s, v)
      if x.sort != tree.sort and x.sort in T.ARITH and tree.sort in T.ARITH:
        x = T.cast(x, tree.sort)
      put(tree, x)
    elif isinstance(tree, Cell):
      put(tree.leaf, I.freeze(s, content(I, s, v, tree.kind)))
    elif isinstance(tree, Tup):
      for k, x in zip(tree.kids, v.args):
        self.values(k, x, s, put)
    elif isinstance(tree, Inst):
      for k, x in zip(tree.kids, v.args[2]):
        self.values(k, x, s, put)

  def final(self, tree, leafval, markval, out):
    I = self.I
    if isinstance(tree, Same):
      return tree.v
    if isinstance(tree, Leaf):
      return leafval(tree)
    if isinstance(tree, Cell):
      return I.alloc(out, (tree.kind, leafval(tree.leaf)))
    if isinstance(tree, Tup):
      return mk('tup', tuple(self.final(k, leafval, None, out) for k in tree.kids), 'tup')
    if isinstance(tree, Inst):
      return I.mkinst(tree.cls, tree.names, [self.final(k, leafval, None, out) for k in tree.kids])
    raise NeedPeel()


def has_mark(tree):
  if isinstance(tree, Mark):
    return True
  if isinstance(tree, (Tup, Inst)):
    return any(has_mark(k) for k in tree.kids)
  return False


def kind_of(I, s, v):
  if v.op == 'ite':
    a, b = kind_of(I, s, v.args[1]), kind_of(I, s, v.args[2])
    if a != b:
      raise Unsupported('reference to different kinds of object')
    return a
  return I.kind(s, v)


def content(I, s, v, kind):
  return I.seq_of(s, v) if kind == 'list' else I.dict_of(s, v)


# ----------------------------------------------------------------------

def general(I, st, n, step, test, iterated, normals, breaks):
  """Abstracts an unbounded loop; appends its end states."""
  I.generalised = True
  fr = I.fr
  st0 = st
  limit = I.ncell
  pymark = len(I.py)
  L = Loop(I, st0, limit, pymark)
  if n is not None:
    i = T.fresh_index(n)
  else:
    i = T.fresh('k', 'int', lo=0)
  L.i = i
  saved_pcs = I.pcs
  frozen0 = set(I.frozen)
  ob0 = len(I.oblig)
  mark = len(fr.exits)
  saved_lpcs = I.lpcs
  outer = I.outer_pc()
  I.pcs = [TRUE] * len(saved_pcs)
  I.lpcs = []
  I.loopstack.append(len(I.stack))
  result = None
  try:
    stable = 0
    tried_hyp = False
    for rnd in range(40):
      I.frozen = set(frozen0)
      del I.oblig[ob0:]
      del fr.exits[mark:]
      s = st0.copy()
      s.pc = TRUE
      for loc in L.order:
        set_loc(I, s, loc, L.install(L.trees[loc], s))
      entry = dict(s.heap)
      I.activate(s)
      try:
        sfalse, ends, br = one(I, s, step, test, i)
      except Unsupported:
        if any(has_mark(t) for t in L.trees.values()):
          raise NeedPeel()
        raise
      esc = fr.exits[mark:]
      del fr.exits[mark:]
      end = I.join_states(ends) if ends else None
      L.sfalse, L.end, L.br, L.esc, L.entry = sfalse, end, br, esc, entry
      # fixpoint over changed locations
      changed = False
      if end is not None:
        for loc in diff_locs(I, entry, end.heap, limit):
          if loc in L.trees:
            continue
          v0, v1 = get_loc(I, st0, loc), get_loc(I, end, loc)
          L.trees[loc] = L.build(v0, st0, v1, end)
          L.order.append(loc)
          changed = True
        for loc in L.order:
          t = L.trees[loc]
          v1 = get_loc(I, end, loc)
          if isinstance(t, Leaf) and L.sol.get(t.sym) is v1 or isinstance(t, Leaf) and t.sym is v1:
            continue
          nt = L.fits(t, get_loc(I, st0, loc), v1, end)
          if nt is not t:
            L.trees[loc] = nt
            L.sol.clear()
            changed = True
      if changed:
        continue
      # recurrence equations
      eqs(L)
      n2 = solve(L, n, test)
      if n2 is not None and n is None:
        # a counted while loop: its trip count bounds the index
        n = n2
        L.counted = True
        T.FACTS.setdefault(i.args[0], {})['hi'] = n
        T.FACTS[i.args[0]]['lo'] = 0
        T.FACTS[i.args[0]].setdefault('nz', False)
        L.progress = True
      if L.progress and stable < 6:
        stable += 1
        continue
      if not tried_hyp:
        tried_hyp = True
        if hypothesise(L):
          continue
      elif L.hyp and not check_hyp(L):
        continue
      result = True
      break
    if not result:
      raise Unsupported('loop abstraction does not stabilise')
    check_cells(L)
    check_iterated(L, iterated)
    finish(L, n, test, normals, breaks, outer, ob0)
  finally:
    I.pcs = saved_pcs
    I.lpcs = saved_lpcs
    I.loopstack.pop()
    I.frozen |= frozen0


def eqs(L):
  I = L.I
  allv = []
  for loc in L.order:
    t = L.trees[loc]
    if has_mark(t):
      continue
    v0 = get_loc(I, L.st, loc)

    def put0(leaf, x):
      leaf.init = x
    L.values(t, v0, L.st, put0)
    if L.end is not None:
      def put1(leaf, x):
        leaf.next = x
      L.values(t, get_loc(I, L.end, loc), L.end, put1)
    else:
      ls = []
      L.leaves(t, ls)
      for lf in ls:
        lf.next = lf.sym
    ls = []
    L.leaves(t, ls)
    for lf in ls:
      if lf.init.sort != lf.sort and lf.init.sort in T.ARITH and lf.sort in T.ARITH:
        lf.init = T.cast(lf.init, lf.sort)
    allv.extend(ls)
  L.leafs = allv


def solve(L, n, test):
  """Finds closed forms; returns a trip count for a counted while loop."""
  i = L.i
  L.progress = False
  unsolved = [lf for lf in L.leafs if lf.sym not in L.sol]
  work = True
  while work:
    work = False
    symset = {lf.sym for lf in unsolved}
    for lf in list(unsolved):
      nxt = lf.next
      if L.sol:
        nxt = T.subst(nxt, L.sol)
      f = closed_form(lf, nxt, i, symset)
      if f is not None:
        L.sol[lf.sym] = f
        unsolved.remove(lf)
        L.progress = True
        work = True
        break
  # lengths of sequences that grow regularly
  for lf in unsolved:
    if isinstance(lf.sort, tuple) and lf.sort[0] == 'seq' and lf.sym.args[0] not in T.SEQ_LEN:
      d = T.sub(T.length(lf.next), T.length(lf.sym))
      if L.sol:
        d = T.subst(d, L.sol)
      if not T.mentions(d, {x.sym for x in unsolved}):
        if not T.occurs(d, lambda x: x is i):
          ln = T.add(T.length(lf.init), T.mul(d, i))
        else:
          ln = T.add(T.length(lf.init), T.ssum(i, T.close(d, [i]), 'int'))
        T.SEQ_LEN[lf.sym.args[0]] = ln
        L.progress = True
  # recurrences through the last element of a growing list
  if not L.progress:
    for lf in unsolved:
      f = last_element(L, lf, {x.sym for x in unsolved})
      if f is not None:
        L.sol[lf.sym] = f
        L.progress = True
        break
  if not L.progress:
    closed_group(L, [lf for lf in L.leafs if lf.sym not in L.sol])
  L.unsolved = [lf for lf in L.leafs if lf.sym not in L.sol]
  if test is not None and n is None and L.sfalse is not None:
    c = T.subst(L.sfalse.pc, L.sol) if L.sol else L.sfalse.pc
    if not T.mentions(c, {x.sym for x in L.unsolved}):
      m = T._count(T.close(c, [i]))
      if m is not None:
        return m
  return None


def closed_group(L, unsolved):
  """Solves states that evolve by themselves when another one is then a closed form."""
  i = L.i
  syms = {lf.sym: lf for lf in unsolved}
  nexts = {lf.sym: T.subst(lf.next, L.sol) if L.sol else lf.next for lf in unsolved}
  deps = {}
  for s, t in nexts.items():
    deps[s] = {x for x in syms if T.mentions(t, {x})}

  def closure(s):
    out, todo = set(), [s]
    while todo:
      x = todo.pop()
      if x not in out:
        out.add(x)
        todo.extend(deps[x])
    return out
  for lf in unsolved:
    group = closure(lf.sym) - {lf.sym}
    if not group or any(lf.sym in closure(x) for x in group):
      continue
    ls = [x for x in unsolved if x.sym in group]
    if any(x.init.sort != x.sort for x in ls):
      continue
    ns = [nexts[x.sym] for x in ls]
    sols = {x.sym: make_mu(i, ls, ns, i, j) for j, x in enumerate(ls)}
    f = closed_form(lf, T.subst(nexts[lf.sym], sols), i, set(syms))
    if f is not None:
      L.sol.update(sols)
      L.sol[lf.sym] = f
      L.progress = True
      return


def hypothesise(L):
  """Assumes unsolved integers stay nonnegative when they start so."""
  got = False
  for lf in L.unsolved:
    if lf.sort == 'int' and T.nonneg(lf.init) and lf.sym.args[0] not in T.FACTS:
      old = lf.sym
      name = old.args[0] + '+'
      lf.sym = T.sym(name, 'int', lo=0)
      L.hyp[lf.sym] = lf
      got = True
  return got


def check_hyp(L):
  I = L.I
  bad = []
  if L.end is not None:
    I.activate(L.end)
  for s, lf in list(L.hyp.items()):
    if lf.sym is s and s not in L.sol and not T.nonneg(lf.next):
      bad.append(lf)
  if bad:
    for lf in bad:
      L.hyp.pop(lf.sym)
      lf.sym = T.fresh('phi', lf.sort)
    # facts used under the failed hypotheses may be in the other solutions
    L.sol.clear()
    for s in list(L.hyp):
      lf = L.hyp.pop(s)
      lf.sym = T.fresh('phi', lf.sort)
    return False
  return True


def check_cells(L):
  """A rebound list that the body also updates in place must not be shared."""
  I = L.I
  if L.end is None:
    return
  for loc in L.order:
    t = L.trees[loc]
    if isinstance(t, Cell) and t.cid is not None:
      p = L.end.heap.get(t.cid)
      v = L.sol.get(t.leaf.sym, t.leaf.sym)
      if p is not None and p[1] is not v:
        r0 = t.r0
        if shared(L.st, r0, loc):
          raise Unsupported('update through a rebound reference to a shared list')


def shared(st, r0, loc):
  for cid, p in st.heap.items():
    if p[0] == 'scope':
      for n, v in p[1].items():
        if (cid, n) != loc and T.occurs(v, lambda x: x is r0):
          return True
    elif p[0] == 'inst':
      for n, v in p[2].items():
        if T.occurs(v, lambda x: x is r0):
          return True
    elif T.occurs(p[1:], lambda x: x is r0):
      return True
  return False


def check_iterated(L, iterated):
  if iterated is None or iterated[0] is None or L.end is None:
    return
  ref = iterated[0]
  if ref.op != 'ref':
    return
  loc = (ref.args[0], None)
  if loc in L.trees:
    t = L.trees[loc]
    if not isinstance(t, Leaf):
      raise Unsupported('iteration over a list the loop changes')
    nxt = t.next
    sym = t.sym
    if not only_updates(nxt, L.sol.get(sym, sym), L.i):
      raise Unsupported('iteration over a list the loop changes')


def only_updates(t, base, i):
  if t is base:
    return True
  if t.op == 'upd':
    return t.args[1] is i and only_updates(t.args[0], base, i)
  if t.op == 'ite':
    return only_updates(t.args[1], base, i) and only_updates(t.args[2], base, i)
  return False


# ----------------------------------------------------------------------
# closed forms

def split_seq(nxt, phi):
  """(before, after) with nxt = before ++ phi ++ after, or None"""
  if nxt is phi:
    return T.lit(()), T.lit(())
  if nxt.op == 'cat':
    k = [j for j, p in enumerate(nxt.args) if p is phi]
    if len(k) != 1:
      # a choice inside the concatenation
      for j, p in enumerate(nxt.args):
        if p.op == 'ite':
          r = split_seq(p, phi)
          if r is not None:
            return T.cat(list(nxt.args[:j]) + [r[0]]), T.cat([r[1]] + list(nxt.args[j + 1:]))
      return None
    k = k[0]
    return T.cat(nxt.args[:k]), T.cat(nxt.args[k + 1:])
  if nxt.op == 'ite':
    a, b = split_seq(nxt.args[1], phi), split_seq(nxt.args[2], phi)
    if a is None or b is None:
      return None
    return T.ite(nxt.args[0], a[0], b[0]), T.ite(nxt.args[0], a[1], b[1])
  return None


def writes(nxt, phi):
  """(index, value) with nxt = phi updated at one index, value in terms of phi."""
  if nxt is phi:
    return ()
  if nxt.op == 'upd' and nxt.args[0] is phi:
    return (nxt.args[1], nxt.args[2])
  if nxt.op == 'ite':
    a, b = writes(nxt.args[1], phi), writes(nxt.args[2], phi)
    if a is None or b is None:
      return None
    if a == () and b == ():
      return ()
    ia = a[0] if a else b[0]
    ib = b[0] if b else a[0]
    if ia is not ib:
      return None
    va = a[1] if a else T.at(phi, ia)
    vb = b[1] if b else T.at(phi, ib)
    return (ia, T.ite(nxt.args[0], va, vb))
  return None


def closed_form(lf, nxt, i, symset):
  phi, init = lf.sym, lf.init
  if nxt is phi:
    return init
  others = symset
  one_ = {phi}

  def free(x):
    return not T.mentions(x, others)
  if free(nxt):
    # the value does not depend on earlier iterations
    prev = T.subst(nxt, {i: T.sub(i, const(1))})
    if T.subst(prev, {i: const(0)}) is init:
      return prev
    return T.ite(T.gt0(i), prev, init)
  s = lf.sort
  if s in ('int', 'ring', 'poly'):
    d = T.sub(nxt, phi)
    if free(d):
      return T.add(init, T.ssum(i, T.close(d, [i]), s))
    # affine: nxt = a*phi + b
    ab = affine(nxt, phi)
    if ab is not None and free(ab[0]) and free(ab[1]):
      a, b = ab
      if b.op == 'c' and T.cval(b) == 0:
        return T.mul(init, T.sprod(i, T.close(a, [i]), s))
      if not T.occurs(a, lambda x: x is i):
        # sum over j < i of a^j * b(i-1-j)
        j = T.fresh_index(i)
        body = T.mul(T.power(a, j), T.subst(b, {i: T.sub(T.sub(i, const(1)), j)}))
        return T.add(T.mul(init, T.power(a, i)), T.ssum(i, T.close(body, [j]), s))
    # conditional accumulation
    if nxt.op == 'ite':
      g = cond_delta(nxt, phi)
      if g is not None and free(g):
        return T.add(init, T.ssum(i, T.close(g, [i]), s))
      g = cond_factor(nxt, phi)
      if g is not None and free(g):
        return T.mul(init, T.sprod(i, T.close(g, [i]), s))
    return None
  if s == 'bool':
    if nxt.op == 'ite':
      a = T.subst(nxt, {phi: TRUE})
      b = T.subst(nxt, {phi: FALSE})
      if b is FALSE and free(a):
        return band(init, T.sall(i, T.close(a, [i])))
      if a is TRUE and free(b):
        return bor(init, T.sany(i, T.close(b, [i])))
    return None
  if s == 'bytes':
    if nxt.op == 'bcat':
      ps = nxt.args
      if ps[0] is phi and all(free(p) for p in ps[1:]):
        x = T.bcat(ps[1:])
        return T.bcat([init, T.bjoin(const(b''), T.smap(i, T.close(x, [i])))])
      if ps[-1] is phi and all(free(p) for p in ps[:-1]):
        x = T.subst(T.bcat(ps[:-1]), {i: T.sub(T.sub(i, const(1)), i)})
        return None
    return None
  if isinstance(s, tuple) and s[0] == 'seq':
    r = split_seq(nxt, phi)
    if r is not None and free(r[0]) and free(r[1]):
      before, after = r
      parts = []
      if not (before.op == 'lit' and not before.args):
        j = T.fresh_index(i)
        b = T.subst(before, {i: T.sub(T.sub(i, const(1)), j)})
        parts.append(T.flat(i, T.close(b, [j])))
      parts.append(init)
      if not (after.op == 'lit' and not after.args):
        parts.append(T.flat(i, T.close(after, [i])))
      return T.cat(parts)
    w = writes(nxt, phi)
    if w:
      return elementwise(lf, w, i, others)
  return None


def affine(nxt, phi):
  if nxt.op == 'ite':
    a, b = affine(nxt.args[1], phi), affine(nxt.args[2], phi)
    if a is None or b is None:
      return None
    return T.ite(nxt.args[0], a[0], b[0]), T.ite(nxt.args[0], a[1], b[1])
  d = T.to_poly(nxt)
  a, b = {}, {}
  for m, c in d.items():
    e = [x for x in m if x[0] is phi]
    if not e:
      b[m] = c
    elif e[0][1] == 1:
      a[tuple(x for x in m if x[0] is not phi)] = c
    else:
      return None
  srt = phi.sort
  return T.from_poly(a, srt), T.from_poly(b, srt)


def cond_delta(nxt, phi):
  if nxt.op == 'ite':
    a, b = cond_delta(nxt.args[1], phi), cond_delta(nxt.args[2], phi)
    return T.ite(nxt.args[0], a, b)
  return T.sub(nxt, phi)


def cond_factor(nxt, phi):
  if nxt.op == 'ite':
    a, b = cond_factor(nxt.args[1], phi), cond_factor(nxt.args[2], phi)
    if a is None or b is None:
      return None
    return T.ite(nxt.args[0], a, b)
  ab = affine(nxt, phi)
  if ab is None or not (ab[1].op == 'c' and T.cval(ab[1]) == 0):
    return None
  return ab[0]


def elementwise(lf, w, i, others):
  """phi[idx(i)] = v with unit stride, v reading phi only at idx"""
  phi, init = lf.sym, lf.init
  idx, v = w
  if T.mentions(idx, others):
    return None
  d = T.sub(idx, i)
  up = True
  if T.occurs(d, lambda x: x is i):
    d = T.add(idx, i)
    up = False
    if T.occurs(d, lambda x: x is i):
      return None
  n = T.length(init)
  v2 = T.subst(v, {T.at(phi, idx): T.at(init, idx)})
  if T.mentions(v2, others):
    return None
  # value written at position t
  t = T.fresh_index(n)
  k = T.sub(t, d) if up else T.sub(d, t)      # the iteration that writes t
  val = T.subst(v2, {i: k})
  written = band(T.le(const(0), k), T.lt(k, i))
  return T.smap(n, T.close(T.ite(written, val, T.at(init, t)), [t]))


def last_element(L, lf, symset):
  """phi = phi ++ [f(phi[-1])]: the list of iterates of f."""
  if not (isinstance(lf.sort, tuple) and lf.sort[0] == 'seq'):
    return None
  phi, i = lf.sym, L.i
  nxt = T.subst(lf.next, L.sol) if L.sol else lf.next
  r = split_seq(nxt, phi)
  if r is None or not (r[0].op == 'lit' and not r[0].args):
    return None
  x = r[1]
  if x.op != 'lit' or len(x.args) != 1:
    return None
  e = x.args[0]
  last = T.at(phi, T.sub(T.length(phi), const(1)))
  n0 = T.length(lf.init)
  if not T.positive(n0):
    return None
  srt = e.sort if e.sort != 'any' else T.elem_sort(lf.init)
  e0 = T.at(lf.init, T.sub(n0, const(1)))
  if e.op in ('lit', 'tup') and e0.op == e.op and len(e0.args) == len(e.args):
    # states of several components
    leafs, vals = [], []
    for x0, x1 in zip(e0.args, e.args):
      ks = T.join_value_sort(x0.sort, x1.sort)
      if x0.sort != ks and not (x0.sort in T.ARITH and ks in T.ARITH):
        return None
      k = Leaf(ks)
      k.init = T.cast(x0, ks) if x0.sort != ks else x0
      leafs.append(k)
    whole = T.lit(tuple(k.sym for k in leafs)) if e.op == 'lit' else mk('tup', tuple(k.sym for k in leafs), 'tup')
    nexts = T.subst(e, {last: whole})
    if nexts.op != e.op or len(nexts.args) != len(leafs) or T.mentions(nexts, symset):
      return None
    nexts = [T.cast(x, k.sort) if x.sort != k.sort else x for k, x in zip(leafs, nexts.args)]
    sols = {}
    work = True
    while work:
      work = False
      left = {k.sym for k in leafs if k.sym not in sols}
      for k, x in zip(leafs, nexts):
        if k.sym in left:
          c = closed_form(k, T.subst(x, sols) if sols else x, i, left)
          if c is not None:
            sols[k.sym] = c
            work = True
            break
    rest = [j for j, k in enumerate(leafs) if k.sym not in sols]
    if rest:
      ls = [leafs[j] for j in rest]
      ns = [T.subst(nexts[j], sols) if sols else nexts[j] for j in rest]
      for j, k in enumerate(ls):
        sols[k.sym] = make_mu(i, ls, ns, i, j)
    g = [T.subst(sols[k.sym], {i: T.add(i, const(1))}) for k in leafs]
    g = T.lit(tuple(g)) if e.op == 'lit' else mk('tup', tuple(g), 'tup')
    return T.cat([lf.init, T.smap(i, T.close(g, [i]))])
  acc = T.fresh('last', srt)
  e2 = T.subst(e, {last: acc})
  if T.mentions(e2, symset):
    return None
  sub_ = Leaf(srt)
  sub_.sym = acc
  sub_.init = T.at(lf.init, T.sub(n0, const(1)))
  if sub_.init.sort != srt and srt in T.ARITH and sub_.init.sort in T.ARITH:
    sub_.init = T.cast(sub_.init, srt)
  f = closed_form(sub_, e2, i, {acc})
  if f is None:
    if sub_.init.sort != srt:
      return None
    f = make_mu(i, [sub_], [e2], i, 0)
  # appended at iteration j: the state after j+1 steps
  g = T.subst(f, {i: T.add(i, const(1))})
  return T.cat([lf.init, T.smap(i, T.close(g, [i]))])


def make_mu(n, leafs, nexts, i, j):
  """mu term for leaf j, keeping only the states it depends on, in a canonical order."""
  order, seen = [], set()
  syms = {lf.sym: k for k, lf in enumerate(leafs)}

  def deps(t):
    out = []
    done = set()

    def go(x):
      if isinstance(x, T.T):
        if x in done:
          return
        done.add(x)
        if x in syms:
          out.append(syms[x])
          return
        for a in x.args:
          go(a)
      elif isinstance(x, tuple):
        for y in x:
          go(y)
    go(t)
    return out

  def visit(k):
    if k in seen:
      return
    seen.add(k)
    order.append(k)
    for d in deps(nexts[k]):
      visit(d)
  visit(j)
  # an order that does not depend on the component asked for
  order.sort(key=lambda k: (leafs[k].init.serial, k))
  ss = [leafs[k].sym for k in order]
  inits = tuple(leafs[k].init for k in order)
  bodies = tuple(T.close(nexts[k], ss + [i]) for k in order)
  return T.mu(n, inits, bodies, order.index(j), leafs[j].sort)


class StateVar(object):
  def __init__(self, sym, init):
    self.sym, self.init, self.sort = sym, init, sym.sort


def mu_component(n, inits, nexts, k):
  """Component k of a recurrence after n steps."""
  leafs = [StateVar(T.fresh('phi', x.sort), x) for x in inits]
  i = T.fresh('i', 'int', lo=0)
  ss = tuple(lf.sym for lf in leafs)
  return make_mu(n, leafs, [T.subst_bv(b, ss + (i,)) for b in nexts], i, k)


def solutions(L):
  """Closed forms (or recurrences) of every leaf at the start of iteration i."""
  sol = dict(L.sol)
  if L.unsolved:
    nexts = [T.subst(lf.next, sol) if sol else lf.next for lf in L.unsolved]
    m = {}
    for k, lf in enumerate(L.unsolved):
      m[lf.sym] = make_mu(L.i, L.unsolved, nexts, L.i, k)
    sol = {a: T.subst(b, m) for a, b in sol.items()}
    sol.update(m)
  return sol


# ----------------------------------------------------------------------

def finish(L, n, test, normals, breaks, outer, ob0):
  I, i, st = L.I, L.i, L.st
  fr = I.fr
  I.activate(st)
  sol = solutions(L)
  marks = []
  for t in L.trees.values():
    L.marks(t, marks)
  marks = set(marks)
  end = L.end
  esc = list(L.esc)
  done_pc = end.pc if end is not None else FALSE
  nexits = len(L.br) + len(esc)

  def inst(t):
    t = T.subst(t, sol) if sol else t
    if marks and T.mentions(t, marks):
      raise NeedPeel()
    return t

  def at_index(t, k):
    return T.subst(t, {i: k})

  cmap = lambda k: dict([(a, at_index(b, k)) for a, b in sol.items()] + [(i, k)])
  # conditions of iteration i
  tcond = None
  if test is not None:
    tcond = bnot(inst(L.sfalse.pc)) if L.sfalse is not None else TRUE
  counted = test is not None and n is not None
  body_ok = inst(done_pc)
  if counted and tcond is not TRUE:
    body_ok = T.subst(body_ok, {tcond: TRUE})
    if tcond.op == 'ite' or body_ok is tcond:
      body_ok = TRUE if nexits == 0 else body_ok
  stop = bnot(body_ok)
  if nexits == 0:
    stop = FALSE if (test is None or counted) else bnot(tcond)
  obl = I.oblig[ob0:]
  del I.oblig[ob0:]

  infinite = False
  if n is None and (stop is FALSE):
    infinite = True
  if n is not None:
    if stop is FALSE:
      last = n
      exited = FALSE
      nobl, reached = n, None
    else:
      sb = T.close(stop, [i])
      exited = T.sany(n, sb)
      last = T.least(n, sb)
      nobl, reached = n, last
    if counted:
      nobl = T.add(n, const(1))
  elif not infinite:
    sb = T.close(stop, [i])
    last = T.first(sb)
    if nexits:
      tl = at_index(tcond, last) if tcond is not TRUE else TRUE
      exited = tl
    else:
      exited = FALSE
    nobl, reached = T.add(last, const(1)), None
  else:
    last, exited = inf(), FALSE
    nobl, reached = None, None

  # obligations
  for pc, cond, name, loc in obl:
    try:
      b = bor(bnot(inst(pc)), inst(cond))
    except NeedPeel:
      raise
    if b is TRUE:
      continue
    if reached is not None:
      b = bor(T.lt(reached, i), b)
    if nobl is None:
      continue
    q = T.sall(nobl, T.close(b, [i]))
    if q is TRUE:
      continue
    opc = band(outer, st.pc)
    if opc is FALSE:
      continue
    I.oblig.append((opc, q, name, loc))

  def build_state(src, k, kind):
    """The state at exit: locations changed in src, at index k."""
    out = st.copy()
    m = cmap(k)
    rel = Relocator(I, L, src, out, m, marks)
    for loc in diff_locs(I, st.heap, src.heap, L.limit):
      if kind == 'raise' and not I.explicit:
        continue
      v = get_loc(I, src, loc)
      set_loc(I, out, loc, rel.value(v))
    return out, rel

  def learn(s, c, val):
    pc = s.pc
    I.assume(s, c, val)
    s.pc = pc

  # normal completion
  if infinite:
    if fr.yields is not None and nexits == 0:
      out = st.copy()
      for loc in L.order:
        if loc[0] == fr.yields.args[0]:
          t = L.trees[loc]
          set_loc(I, out, loc, L.final(t, lambda lf: at_index(sol[lf.sym], inf()), None, out))
      out.pc = TRUE
      fr.exits.append(IP.Exit('return', out, NONE))
    return
  if test is not None:
    if L.sfalse is not None or counted:
      out, _ = final_state(L, sol, n if counted else last, L.sfalse, cmap, marks)
      out.pc = TRUE
      if exited is not FALSE:
        I.assume(out, exited, False)
      elif not counted:
        learn(out, at_index(tcond, last), False)
      normals.append(out)
  else:
    out, _ = final_state(L, sol, n, None, cmap, marks)
    out.pc = TRUE
    if exited is not FALSE:
      I.assume(out, exited, False)
    if out.pc is not FALSE:
      normals.append(out)

  if exited is FALSE or nexits == 0:
    return
  # exits, at the index where the loop stops
  groups = [('break', s, NONE, None) for s in L.br] + [(e.kind, e.st, e.value, e.line) for e in esc]
  same_raise = all(g[0] == 'raise' and g[2] is groups[0][2] for g in groups)
  if same_raise and not I.explicit:
    groups = groups[:1]
  merged = []
  for g in groups:
    for j, h in enumerate(merged):
      if h[0] == g[0] and h[2] is g[2] and g[0] in ('break', 'return') and g[2].op == 'c':
        merged[j] = (h[0], I.join_states([h[1], g[1]]), h[2], h[3])
        break
    else:
      merged.append(g)
  groups = merged
  for kind, s, v, line in groups:
    I.activate(st)
    if len(groups) == 1:
      pc = exited
    else:
      pc = band(exited, at_index(inst(s.pc), last))
    if pc is FALSE:
      continue
    if kind == 'raise' and not I.explicit:
      out = st.copy()
      rel = None
    else:
      out, rel = build_state(s, last, kind)
    out.pc = TRUE
    I.assume(out, pc, True)
    if kind == 'break':
      breaks.append(out)
    else:
      if rel is not None and v.op not in ('c', 'exc'):
        v = rel.value(v)
      fr.exits.append(IP.Exit(kind, out, v, line))


def final_state(L, sol, n, sfalse, cmap, marks):
  """The state when the loop runs to completion (index n)."""
  I, i, st, end = L.I, L.i, L.st, L.end
  out = st.copy()
  prev = T.sub(n, const(1))
  some = I.simp(st, T.gt0(n))
  leafval = lambda lf: T.renorm(T.subst(sol[lf.sym], {i: n}))
  relp = None
  for loc in L.order:
    t = L.trees[loc]
    if has_mark(t):
      if end is None or some is FALSE:
        continue
      v0, v1 = get_loc(I, st, loc), get_loc(I, end, loc)
      if marks and T.mentions(v1, marks):
        # conditionally bound
        if v1 in marks:
          continue
        if not unboundish(v0):
          raise NeedPeel()
        set_loc(I, out, loc, IP.unbound())
        continue
      if relp is None:
        relp = Relocator(I, L, end, out, cmap(prev), marks)
      try:
        r = relp.value(v1)
      except Unsupported:
        r = IP.unbound()
      if some is TRUE:
        v = r
      else:
        try:
          v = I.mval(out, some, r, v0)
        except Unsupported:
          v = r if T.has_unbound(v0) else IP.unbound()
        if unboundish(v0) and T.occurs(v, lambda x: x is v0):
          v = T.ite(some, r, IP.unbound())
      set_loc(I, out, loc, v)
    else:
      set_loc(I, out, loc, L.final(t, leafval, None, out))
  if sfalse is not None:
    # effects of the test that failed
    extra = diff_locs(I, L.entry, sfalse.heap, L.limit)
    if extra:
      rel = Relocator(I, L, sfalse, out, cmap(n), marks)
      for loc in extra:
        set_loc(I, out, loc, rel.value(get_loc(I, sfalse, loc)))
  return out, None


def unboundish(v):
  return T.has_unbound(v) or v.op == 'sym' and v.args[0].startswith('undef#')


class Relocator(object):
  """Moves values of a loop iteration out of the loop."""

  def __init__(self, I, L, src, out, mapping, marks):
    self.I, self.L, self.src, self.out = I, L, src, out
    self.mapping = mapping
    self.cells = {}
    self.marks = marks

  def value(self, v):
    if self.marks and T.mentions(v, self.marks):
      raise NeedPeel()
    if v.op in ('c',):
      return v
    refs = set()
    pyobjs = set()

    def scan(x, seen=set()):
      if isinstance(x, T.T):
        if x in done:
          return
        done.add(x)
        if x.op == 'ref':
          if x.args[0] > self.L.limit and x.args[0] not in self.I.base:
            refs.add(x)
          return
        if x.op == 'py':
          pyobjs.add(x)
          return
        for a in x.args:
          scan(a)
      elif isinstance(x, tuple):
        for y in x:
          scan(y)
    done = set()
    scan(v)
    for p in pyobjs:
      if p.args[0] >= self.L.pymark:
        o = self.I.obj(p)
        if o.kind in ('func', 'bound', 'boundname'):
          raise Unsupported('function object created in a loop')
    m = self.mapping
    if refs:
      for r in refs:
        if r not in self.cells:
          p = self.src.heap.get(r.args[0])
          if p is None:
            raise Unsupported('object of another iteration')
          new = self.I.alloc(self.out, p)
          self.cells[r] = new
          self.I.put(self.out, new, self.payload(p))
          if r.args[0] in self.I.frozen:
            self.I.frozen.add(new.args[0])
      m = dict(m)
      m.update(self.cells)
    return T.subst(v, m)

  def payload(self, p):
    k = p[0]
    if k == 'scope':
      return ('scope', {n: self.value(x) for n, x in p[1].items()})
    if k == 'inst':
      return ('inst', p[1], {n: self.value(x) for n, x in p[2].items()})
    if k == 'iter':
      return ('iter', self.value(p[1]), self.value(p[2]))
    return (k, self.value(p[1]))
