"""Abstract interpretation of Python source over value-graph terms.

Every function is abstracted into the terms of `sa.terms`: joins become gated
choices, loops become closed forms or recurrences found by a fixpoint over the
shapes of the values they change, objects live in an abstract heap.  Nothing of
the analysed repository is imported or executed.
"""
import ast
import builtins
import os

from . import terms as T
from .terms import (Unsupported, TooBig, const, TRUE, FALSE, NONE, NOTIMPL, mk,
                    band, bor, bnot)


class PathDead(Exception):
  """No execution continues past this point."""


class Recursion(Exception):
  def __init__(self, func):
    self.func = func


UNBOUND = None


def unbound():
  return mk('fn', ('unbound', ()), 'any')


# ----------------------------------------------------------------------
# Python-level objects

class PyObj(object):
  kind = 'obj'


class Module(PyObj):
  kind = 'module'

  def __init__(self, name, path=None):
    self.name, self.path = name, path
    self.scope = None
    self.ext = None      # name -> python callable giving a value (external module)


class Func(PyObj):
  kind = 'func'

  def __init__(self, node, name, qual, scopes, module, defaults, kwdefaults):
    self.node, self.name, self.qual = node, name, qual
    self.scopes, self.module = scopes, module
    self.defaults, self.kwdefaults = defaults, kwdefaults
    self.attrs = {}
    self.cls = None
    self.wraps = None
    self.memo = None
    info = funcinfo(node)
    self.locals, self.is_gen, self.globals_, self.nonlocals = info


class Bound(PyObj):
  kind = 'bound'

  def __init__(self, func, self_):
    self.func, self.self_ = func, self_


class BoundName(PyObj):
  """A builtin method taken as a value: obj.name"""
  kind = 'boundname'

  def __init__(self, obj, name):
    self.obj, self.name = obj, name


class Class(PyObj):
  kind = 'class'

  def __init__(self, name, bases, ns, module, qual):
    self.name, self.bases, self.ns, self.module, self.qual = name, bases, ns, module, qual
    self.immutable = None
    self.node = None


class BType(PyObj):
  """builtin type or exception class"""
  kind = 'btype'

  def __init__(self, name, bases=()):
    self.name, self.bases = name, bases


class Builtin(PyObj):
  kind = 'builtin'

  def __init__(self, name, fn):
    self.name, self.fn = name, fn


class Wrapped(PyObj):
  """classmethod / staticmethod / property"""
  kind = 'wrapped'

  def __init__(self, how, func):
    self.how, self.func = how, func


class Model(PyObj):
  """A modelled object: subclasses give get/call/method behaviour."""
  kind = 'model'
  name = 'model'

  def get(self, I, st, attr):
    raise Unsupported('attribute %s of %s' % (attr, self.name))

  def call(self, I, st, args, kw):
    raise Unsupported('call of %s' % self.name)


_finfo = {}


def funcinfo(node):
  r = _finfo.get(node)
  if r is not None:
    return r
  loc, glob, nonl = set(), set(), set()
  gen = [False]

  def targets(t):
    if isinstance(t, ast.Name):
      loc.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
      for e in t.elts:
        targets(e)
    elif isinstance(t, ast.Starred):
      targets(t.value)

  def walk(n, top=False):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
      loc.add(n.name)
      for d in n.decorator_list:
        walk(d)
      return
    if isinstance(n, ast.Lambda) and not top:
      return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      for sub in ast.walk(n):
        if isinstance(sub, ast.NamedExpr):
          targets(sub.target)
      return
    if isinstance(n, ast.Global):
      glob.update(n.names)
    elif isinstance(n, ast.Nonlocal):
      nonl.update(n.names)
    elif isinstance(n, (ast.Yield, ast.YieldFrom)):
      gen[0] = True
    elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      loc.add(n.id)
    elif isinstance(n, ast.ExceptHandler) and n.name:
      loc.add(n.name)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
      for a in n.names:
        loc.add((a.asname or a.name).split('.')[0])
    elif isinstance(n, ast.NamedExpr):
      targets(n.target)
    elif isinstance(n, ast.MatchAs) and n.name:
      loc.add(n.name)
    elif isinstance(n, ast.MatchStar) and n.name:
      loc.add(n.name)
    for c in ast.iter_child_nodes(n):
      walk(c)

  if isinstance(node, ast.Lambda):
    walk(node.body)
    a = node.args
  else:
    for s in node.body:
      walk(s)
    a = node.args
  for x in a.posonlyargs + a.args + a.kwonlyargs:
    loc.add(x.arg)
  if a.vararg:
    loc.add(a.vararg.arg)
  if a.kwarg:
    loc.add(a.kwarg.arg)
  loc -= glob | nonl
  r = (frozenset(loc), gen[0], frozenset(glob), frozenset(nonl))
  _finfo[node] = r
  return r


class Exit(object):
  __slots__ = ('kind', 'st', 'value', 'line')

  def __init__(self, kind, st, value, line=None):
    self.kind, self.st, self.value, self.line = kind, st, value, line


class Frame(object):
  def __init__(self, func, scopes):
    self.func, self.scopes = func, scopes
    self.exits = []
    self.yields = None


class State(object):
  __slots__ = ('heap', 'pc', 'ge', 'known')

  def __init__(self, heap, pc, ge, known):
    self.heap, self.pc, self.ge, self.known = heap, pc, ge, known

  def copy(self):
    return State(dict(self.heap), self.pc, self.ge, self.known)

  def become(self, o):
    self.heap, self.pc, self.ge, self.known = o.heap, o.pc, o.ge, o.known


def lits_of(c, val, out):
  """Literals (atom, truth) implied by the truth value of c."""
  if c.op == 'ite':
    x, y, z = c.args
    if z is FALSE and val:
      lits_of(x, True, out)
      lits_of(y, True, out)
      return
    if y is FALSE and val:
      lits_of(x, False, out)
      lits_of(z, True, out)
      return
    if y is FALSE and z is TRUE:
      lits_of(x, not val, out)
      return
    if y is TRUE and not val:
      lits_of(x, False, out)
      lits_of(z, False, out)
      return
    if z is TRUE and not val:
      lits_of(x, True, out)
      lits_of(y, False, out)
      return
    out.append((c, val))
    return
  out.append((c, val))


def ge_facts(atom, val):
  """Integer terms known to be nonnegative when atom has truth value val."""
  if atom.op == 'gt0' and atom.args[0].sort == 'int':
    t = atom.args[0]
    return [T.sub(t, const(1))] if val else [T.neg(t)]
  if atom.op == 'z' and atom.args[0].sort == 'int':
    t = atom.args[0]
    if val:
      return [t, T.neg(t)]
    if T.nonneg(t):
      return [T.sub(t, const(1))]
    if T.nonneg(T.neg(t)):
      return [T.sub(T.neg(t), const(1))]
  return []


def listlike(v):
  return T.is_seq(v)


MAXDEPTH = 70


class Interp(object):

  def __init__(self, repo, packages=('starks', 'misc')):
    self.repo = repo
    self.base = {}
    self.ncell = 0
    self.py = []
    self.pyterm = {}
    self.modules = {}
    self.loc = ('?', 0)
    self.fr = None
    self.stack = []
    self.pcs = []
    self.assumed = TRUE
    self.unwind = 0       # how deep undecided recursion is followed in a run at one shape
    self.assumed_dead = 0
    self.lpcs = []          # (call depth, path condition) set aside by loops and try blocks
    self.visited = {}
    self.generalised = False  # some loop was summarised rather than unrolled
    self.explicit = 0        # >0: model primitive errors as raise exits
    self.contracts = {}
    self.hits = set()     # the replaced functions that were called
    self.field = None        # current field model
    self.primitive_memo = True
    self.unroll = 0
    self.memo_cache = {}
    self.nondet = []
    self.tape = 0
    self.steps = 0
    self.maxsteps = 400000
    self.frozen = set()
    self.notes = []
    self.sources = {}
    self.effects = None      # list of (name, args) for external effects
    self.loopstack = []
    self.oblig = []
    self.opaque_attrs = {}
    self.ext_models = {}
    self.polys = None
    from . import builtins_ as B
    self.B = B
    B.install(self)

  # ---- objects
  def pyobj(self, o):
    t = self.pyterm.get(id(o))
    if t is None:
      self.py.append(o)
      t = mk('py', (len(self.py) - 1,), 'py')
      self.pyterm[id(o)] = t
      if isinstance(o, Class) and not self.primitive_memo:
        T.PYCLASSES.add(t.args[0])
    return t

  def obj(self, t):
    return self.py[t.args[0]] if t.op == 'py' else None

  def alloc(self, st, payload):
    self.ncell += 1
    cid = self.ncell
    st.heap[cid] = payload
    return mk('ref', (cid,), 'ref')

  def cell(self, st, ref):
    cid = ref.args[0]
    p = st.heap.get(cid)
    if p is None:
      p = self.base.get(cid)
      if p is None:
        raise Unsupported('object not visible on this path')
    return p

  def put(self, st, ref, payload):
    st.heap[ref.args[0]] = payload

  def where(self):
    return '%s:%d' % self.loc

  # ---- conditions
  def simp(self, st, c):
    if c is TRUE or c is FALSE:
      return c
    T.set_ge(st.ge)
    return self._simp(st, c, {})

  def _simp(self, st, c, memo):
    r = memo.get(c)
    if r is not None:
      return r
    k = st.known.get(c)
    if k is not None:
      return TRUE if k else FALSE
    if c.op == 'ite' and c.sort == 'bool':
      x = self._simp(st, c.args[0], memo)
      if x is TRUE:
        r = self._simp(st, c.args[1], memo)
      elif x is FALSE:
        r = self._simp(st, c.args[2], memo)
      else:
        r = T.ite(x, self._simp(st, c.args[1], memo), self._simp(st, c.args[2], memo))
    elif c.op in ('gt0', 'z') and st.ge:
      r = T.rebuild(c, (c.args[0],)) if False else (
          T.gt0(c.args[0]) if c.op == 'gt0' else T.is_zero(c.args[0]))
    else:
      r = c
    memo[c] = r
    return r

  def assume(self, st, c, val=True):
    """Adds a condition to the path facts of st (and its pc)."""
    T.set_ge(st.ge)     # the facts of this path, not those of the path analysed last
    st.pc = band(st.pc, c if val else bnot(c))
    lits = []
    lits_of(c, val, lits)
    known = dict(st.known)
    ge = list(st.ge)
    for a, v in lits:
      known[a] = v
      for f in ge_facts(a, v):
        if f.op != 'c' and f not in ge:
          ge.append(f)
    st.known = known
    st.ge = tuple(ge)
    T.set_ge(st.ge)

  def activate(self, st):
    T.set_ge(st.ge)

  def fork(self, st, c, val):
    s = st.copy()
    self.assume(s, c, val)
    return s

  def branch(self, st, c, f1, f2):
    """Evaluates f1 under c and f2 under not c, joining states and values."""
    c = self.simp(st, c)
    if c is TRUE:
      return f1(st)
    if c is FALSE:
      return f2(st)
    base_pc = st.pc
    s1 = self.fork(st, c, True)
    p1 = s1.pc
    try:
      v1 = f1(s1)
    except PathDead:
      v1 = None
    s2 = self.fork(st, c, False)
    p2 = s2.pc
    try:
      v2 = f2(s2)
    except PathDead:
      v2 = None
    if v1 is None and v2 is None:
      raise PathDead()
    if v1 is None:
      st.become(s2)
      self.activate(st)
      return v2
    if v2 is None:
      st.become(s1)
      self.activate(st)
      return v1
    known, ge = st.known, st.ge
    T.set_ge(tuple(f for f in ge if f in s1.ge and f in s2.ge))
    v = self.mval(st, c, v1, v2)
    st.heap = self.merge_heaps(st, c, s1.heap, s2.heap)
    if s1.pc is p1 and s2.pc is p2:
      st.pc = base_pc
    else:
      st.pc = bor(s1.pc, s2.pc)
      ge = tuple(f for f in s1.ge if f in s2.ge)
      known = {k: w for k, w in s1.known.items() if s2.known.get(k) == w}
    st.known, st.ge = known, ge
    self.activate(st)
    return v

  def merge_heaps(self, st, c, h1, h2):
    out = dict(h1)
    base = self.base
    for cid, p2 in h2.items():
      p1 = h1.get(cid)
      if p1 is p2 or p1 == p2:
        continue
      if p1 is None:
        p1 = base.get(cid)
        if p1 is None:
          out[cid] = p2
          continue
      out[cid] = self.merge_payload(st, c, p1, p2)
    for cid, p1 in h1.items():
      if cid not in h2:
        p2 = base.get(cid)
        if p2 is not None and p2 != p1:
          out[cid] = self.merge_payload(st, c, p1, p2)
    return out

  def merge_payload(self, st, c, a, b):
    k = a[0]
    if k != b[0]:
      raise Unsupported('join of different objects')
    if k == 'scope' :
      d = {}
      da, db = a[1], b[1]
      for n in da:
        x = da[n]
        y = db.get(n)
        if x is y:
          d[n] = x
        elif y is None:
          d[n] = self.mval(st, c, x, unbound())
        else:
          d[n] = self.mval(st, c, x, y)
      for n in db:
        if n not in da:
          d[n] = self.mval(st, c, unbound(), db[n])
      return ('scope', d)
    if k == 'inst':
      if a[1] is not b[1]:
        raise Unsupported('join of instances of different classes')
      d = {}
      for n in list(a[2]) + [n for n in b[2] if n not in a[2]]:
        x, y = a[2].get(n), b[2].get(n)
        if x is y:
          d[n] = x
        else:
          d[n] = self.mval(st, c, x if x is not None else unbound(),
                           y if y is not None else unbound())
      return ('inst', a[1], d)
    if k == 'list':
      return ('list', self.mseq(st, c, a[1], b[1]))
    if k in ('dict', 'set'):
      return (k, T.ite(c, a[1], b[1]))
    if k == 'iter':
      return ('iter', T.ite(c, a[1], b[1]), T.ite(c, a[2], b[2]))
    raise Unsupported('join of %s' % k)

  def mseq(self, st, c, x, y):
    if x is y:
      return x
    if x.op == 'lit' and y.op == 'lit' and len(x.args) == len(y.args):
      return T.lit([self.mval(st, c, p, q) for p, q in zip(x.args, y.args)])
    return T.ite(c, x, y)

  def mval(self, st, c, a, b):
    if a is b:
      return a
    if a.op == 'inst' and b.op == 'inst' and a.args[0] is b.args[0] and a.args[1] == b.args[1]:
      return self.mkinst(a.args[0], a.args[1],
                         [self.mval(st, c, x, y) for x, y in zip(a.args[2], b.args[2])])
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
      return mk('tup', tuple(self.mval(st, c, x, y) for x, y in zip(a.args, b.args)), 'tup')
    return T.ite(c, a, b)

  def mkinst(self, cls, names, vals):
    vals = tuple(vals)
    for n, v in zip(names, vals):
      key = (cls, n)
      old = self.fieldsort.get(key)
      if v.sort != old:
        self.fieldsort[key] = v.sort if old is None else T.join_value_sort(old, v.sort)
    return mk('inst', (cls, tuple(names), vals), ('inst', cls.args[0]))

  fieldsort = {}

  # ---- raising
  def raise_(self, st, name, value=None):
    self.fr.exits.append(Exit('raise', st.copy(), mk('exc', (name,), 'exc'), self.loc))
    raise PathDead()

  def raise_if(self, st, cond, name):
    """An explicit error exit when cond holds; execution continues otherwise."""
    cond = self.simp(st, cond)
    if cond is FALSE:
      return
    if cond is TRUE:
      self.raise_(st, name)
    s = self.fork(st, cond, True)
    self.fr.exits.append(Exit('raise', s, mk('exc', (name,), 'exc'), self.loc))
    self.assume(st, cond, False)

  def primitive_error(self, st, cond, name):
    """cond would make a primitive operation fail."""
    if self.explicit:
      self.raise_if(st, cond, name)
    else:
      c = self.simp(st, cond)
      if c is TRUE:
        self.raise_(st, name)

  def oblige(self, st, cond, name):
    """Records that cond must hold here for the operation to be defined."""
    cond = self.simp(st, cond)
    if cond is TRUE or self.explicit:
      return
    pc = band(self.assumed, band(self.outer_pc(), st.pc))
    if pc is FALSE:
      return
    self.oblig.append((pc, cond, name, self.loc))

  def outer_pc(self):
    """The path condition under which the current block is reached."""
    pc = TRUE
    for d, p in reversed(self.lpcs):
      pc = band(p, pc)
    for p in reversed(self.pcs):
      pc = band(p, pc)
    return pc

  def pyobj_keys(self, st, d):
    """dict.keys(): a set-like view"""
    return self.alloc(st, ('set', T.keyset(d)))

  # ---- values
  def is_ite(self, v):
    return v.op == 'ite' and not (
        v.op == 'ite' and (v.sort in T.ARITH or v.sort in ('bytes', 'str', 'float')
                           or isinstance(v.sort, tuple) and v.sort[0] in ('seq', 'dict', 'set')))

  def split(self, st, v, f):
    c, a, b = v.args
    return self.branch(st, c, lambda s: f(s, a), lambda s: f(s, b))

  def kind(self, st, v):
    o = v.op
    if o == 'ref':
      return self.cell(st, v)[0]
    if o == 'iref':
      s = v.args[2]
      return {'seq': 'list', 'dict': 'dict', 'set': 'set'}[s]
    if o == 'py':
      return self.obj(v).kind
    if o in ('tup', 'tupof'):
      return 'tuple'
    s = v.sort
    if isinstance(s, tuple):
      if s[0] == 'seq':
        return 'list'
      return s[0]
    if s == 'tup':
      return 'tuple'
    return s

  def seq_of(self, st, v):
    """The sequence term of a list, tuple or iterator value (elements unfrozen)."""
    if v.op == 'ite' and self.is_ite(v):
      return T.ite(v.args[0], self.seq_of(st, v.args[1]), self.seq_of(st, v.args[2]))
    if v.op == 'ref':
      p = self.cell(st, v)
      if p[0] == 'list':
        return p[1]
      if p[0] == 'iter':
        return T.slice_(p[1], p[2], None, None)
      if p[0] == 'dict':
        return T.dkeys(p[1])
      if p[0] == 'set':
        return T.dkeys(p[1])
    if v.op == 'iref':
      p = self.iload(st, v)
      if v.args[2] == 'seq':
        return p
      return T.dkeys(p)
    if v.op == 'tup':
      return T.lit(v.args)
    if v.op == 'tupof':
      return v.args[0]
    if T.is_seq(v):
      return v
    if isinstance(v.sort, tuple) and v.sort[0] in ('dict', 'set'):
      return T.dkeys(v)
    raise Unsupported('not a sequence: %s' % (v.sort,))

  def iload(self, st, v):
    ref, path, _ = v.args
    p = self.cell(st, ref)
    t = p[1]
    for i in path:
      t = self.elem(t, i)
    return t

  def elem(self, t, key):
    if isinstance(t.sort, tuple) and t.sort[0] == 'dict':
      return T.dget(t, key)
    return T.at(t, key)

  def istore(self, st, v, new):
    ref, path, _ = v.args
    p = self.cell(st, ref)

    def go(t, k):
      if k == len(path):
        return new
      inner = go(self.elem(t, path[k]), k + 1)
      if isinstance(t.sort, tuple) and t.sort[0] == 'dict':
        return T.dset(t, path[k], inner)
      return T.upd(t, path[k], inner)
    self.put(st, ref, (p[0], go(p[1], 0)))

  def interior(self, st, container, key, v):
    """A value read from a container: nested mutable values keep their identity."""
    s = v.sort
    if v.op in ('ref', 'iref'):
      return v
    if v.op == 'ite' and s == 'ref':
      return v
    if isinstance(s, tuple) and s[0] in ('seq', 'dict', 'set') and container is not None:
      if container.op == 'ref':
        return mk('iref', (container, (key,), s[0]), 'ref')
      if container.op == 'iref':
        return mk('iref', (container.args[0], container.args[1] + (key,), s[0]), 'ref')
    return v

  def freeze(self, st, v):
    """The value as an immutable term: references replaced by their contents."""
    memo = {}

    def go(v):
      if not isinstance(v, T.T):
        return v
      if v in memo:
        return memo[v]
      o = v.op
      if o == 'ref':
        memo[v] = mk('fn', ('cyclic', ()), 'any')
        p = self.cell(st, v)
        if p[0] == 'list':
          self.frozen.add(v.args[0])
          r = go(p[1])
        elif p[0] in ('dict', 'set'):
          self.frozen.add(v.args[0])
          r = go(p[1])
        elif p[0] == 'inst':
          names = tuple(sorted(p[2]))
          r = self.mkinst(p[1], names, [go(p[2][n]) for n in names])
        elif p[0] == 'iter':
          r = go(T.slice_(p[1], p[2], None, None))
        else:
          raise Unsupported('freezing %s' % p[0])
      elif o == 'iref':
        r = go(self.iload(st, v))
      elif o == 'inst':
        names = v.args[1]
        r = self.mkinst(v.args[0], names, [go(x) for x in v.args[2]])
      elif o == 'tup':
        r = mk('tup', tuple(go(x) for x in v.args), 'tup')
      elif o in ('c', 'sym', 'bv', 'py'):
        r = v
      elif not has_ref(v):
        r = v
      else:
        new = tuple(map_args(a, go) for a in v.args)
        r = T.rebuild(v, new)
        if r.sort != v.sort and v.sort not in ('ref', 'any') and not isinstance(v.sort, tuple):
          pass
      memo[v] = r
      return r

    return go(v)

  # ---- name lookup
  def lookup(self, st, name):
    fr = self.fr
    for sc in reversed(fr.scopes):
      v = self.cell(st, sc)[1].get(name)
      if v is not None:
        return self.bound(st, v, name)
    f = fr.func
    if (not self.generalised and isinstance(f, Func) and name in f.locals and
        name not in f.globals_ and name not in f.nonlocals):
      # every statement so far was interpreted one by one, so no assignment to this local was passed over
      self.raise_(st, 'UnboundLocalError')
    v = self.builtins.get(name)
    if v is not None:
      return v
    raise Unsupported('name %s' % name)

  def bound(self, st, v, name):
    if v.op == 'fn' and v.args[0] == 'unbound':
      if self.explicit or not self.generalised:
        self.raise_(st, 'UnboundLocalError')
      raise Unsupported('%s may be unbound' % name)
    if v.op == 'ite' and v.sort == 'any' or v.op == 'ite':
      if T.has_unbound(v):
        c, a, b = v.args
        k = self.simp(st, c)
        if k is TRUE:
          return self.bound(st, a, name)
        if k is FALSE:
          return self.bound(st, b, name)
        return drop_unbound(v)
    return v

  def bind(self, st, name, v):
    fr = self.fr
    f = fr.func
    if isinstance(f, Func):
      if name in f.globals_:
        sc = fr.scopes[0]
        return self.setvar(st, sc, name, v)
      if name in f.nonlocals:
        for sc in reversed(fr.scopes[:-1]):
          if name in self.cell(st, sc)[1]:
            return self.setvar(st, sc, name, v)
    self.setvar(st, fr.scopes[-1], name, v)

  def setvar(self, st, sc, name, v):
    d = dict(self.cell(st, sc)[1])
    d[name] = v
    st.heap[sc.args[0]] = ('scope', d)

  # ---- modules
  def load_module(self, name):
    m = self.modules.get(name)
    if m is not None:
      return m
    ext = self.B.external_module(self, name)
    if ext is not None:
      self.modules[name] = ext
      return ext
    path = self.find_module(name)
    if path is None:
      raise Unsupported('module %s' % name)
    m = Module(name, path)
    self.modules[name] = m
    self.pyobj(m)
    src = self.read(path)
    tree = ast.parse(src)
    m.tree = tree
    st = State({}, TRUE, (), {})
    m.scope = self.alloc(st, ('scope', {'__name__': const(name)}))
    saved = self.fr, self.loc, self.explicit, T.get_ge()
    self.fr = Frame(m, [m.scope])
    self.explicit = 0
    T.set_ge(())
    try:
      r = self.exec_block(tree.body, st, tolerant=True)
      if r is None:
        raise Unsupported('module %s raises on import' % name)
      st = r
    finally:
      self.fr, self.loc, self.explicit = saved[:3]
      T.set_ge(saved[3])
    for cid, p in st.heap.items():
      self.base[cid] = p
    return m

  def read(self, path):
    if path not in self.sources:
      with open(path, encoding='utf-8') as f:
        self.sources[path] = f.read()
    return self.sources[path]

  def find_module(self, name):
    parts = name.split('.')
    p = os.path.join(self.repo, *parts)
    if os.path.isfile(p + '.py'):
      return p + '.py'
    if os.path.isfile(os.path.join(p, '__init__.py')):
      return os.path.join(p, '__init__.py')
    if len(parts) == 1 and os.path.isfile(os.path.join(self.repo, 'misc', name + '.py')):
      return os.path.join(self.repo, 'misc', name + '.py')
    return None

  # ---- statements
  def exec_block(self, stmts, st, tolerant=False):
    for s in stmts:
      if tolerant:
        try:
          st = self.exec_stmt(s, st)
        except Unsupported as e:
          # a module-level statement outside the subset leaves its names unbound
          self.notes.append('%s: %s' % (self.where(), e))
          continue
      else:
        st = self.exec_stmt(s, st)
      if st is None:
        return None
    return st

  def exec_stmt(self, s, st):
    self.steps += 1
    if self.steps > self.maxsteps:
      raise TooBig('analysis budget exhausted')
    fr = self.fr
    mod = fr.func.module if isinstance(fr.func, (Func, Class)) else fr.func
    path = getattr(mod, 'path', None) or '?'
    self.loc = (os.path.relpath(path, self.repo) if path != '?' else '?', getattr(s, 'lineno', 0))
    T.CUR[0] = self.loc
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      raise Unsupported('statement %s' % type(s).__name__)
    try:
      return m(s, st)
    except PathDead:
      return None

  def s_Pass(self, s, st):
    return st

  s_Global = s_Nonlocal = s_Pass

  def s_Expr(self, s, st):
    if isinstance(s.value, ast.Constant):
      return st
    self.ev(s.value, st)
    return st

  def s_Assign(self, s, st):
    v = self.ev(s.value, st)
    for t in s.targets:
      self.assign(t, v, st)
    return st

  def s_AnnAssign(self, s, st):
    if s.value is not None:
      self.assign(s.target, self.ev(s.value, st), st)
    return st

  def s_AugAssign(self, s, st):
    t = s.target
    if isinstance(t, ast.Name):
      old = self.lookup(st, t.id)
      new = self.augop(st, s.op, old, self.ev(s.value, st))
      if new is not None:
        self.bind(st, t.id, new)
    elif isinstance(t, ast.Attribute):
      obj = self.ev(t.value, st)
      old = self.getattr(st, obj, t.attr)
      new = self.augop(st, s.op, old, self.ev(s.value, st))
      if new is not None:
        self.setattr(st, obj, t.attr, new)
    elif isinstance(t, ast.Subscript):
      obj = self.ev(t.value, st)
      key = self.ev_slice(t.slice, st)
      old = self.getitem(st, obj, key)
      new = self.augop(st, s.op, old, self.ev(s.value, st))
      if new is not None:
        self.setitem(st, obj, key, new)
    else:
      raise Unsupported('augmented assignment target')
    return st

  def augop(self, st, op, a, b):
    """In-place operation: the new value, or None when a was changed in place."""
    if a.op in ('ref', 'iref') and self.kind(st, a) == 'list' and isinstance(op, ast.Add):
      self.B.list_extend(self, st, a, b)
      return None
    if a.op in ('ref', 'iref') and self.kind(st, a) == 'list' and isinstance(op, ast.Mult):
      self.store_seq(st, a, self.seq_of(st, self.binop(st, op, a, b)))
      return None
    if a.op in ('ref',) and self.kind(st, a) == 'set' and isinstance(op, (ast.BitOr,)):
      self.call_method(st, a, 'update', [b], {})
      return None
    name = '__i' + DUNDER[type(op)][2:]
    k = self.kind(st, a)
    if k == 'inst':
      f = self.find_attr(st, a, name)
      if f is not None:
        r = self.call(st, f, [a, b], {})
        if r is not NOTIMPL:
          return r
    if a.op == 'ite' and self.is_ite(a) and a.sort == 'ref':
      raise Unsupported('in-place update of a joined reference')
    return self.binop(st, op, a, b)

  def assign(self, t, v, st):
    if isinstance(t, ast.Name):
      self.bind(st, t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      self.unpack(t.elts, v, st)
    elif isinstance(t, ast.Attribute):
      self.setattr(st, self.ev(t.value, st), t.attr, v)
    elif isinstance(t, ast.Subscript):
      obj = self.ev(t.value, st)
      self.setitem(st, obj, self.ev_slice(t.slice, st), v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, st)
    else:
      raise Unsupported('assignment target %s' % type(t).__name__)

  def unpack(self, elts, v, st):
    if self.is_ite(v):
      # join element-wise when both branches are tuples of the right arity
      c, a, b = v.args
      def f(s, x):
        return mk('tup', tuple(self.iter_elems(s, x, len(elts))), 'tup')
      v = self.split(st, v, f)
    star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if star:
      k = star[0]
      seq = self.iter_seq(st, v)
      n = len(elts) - 1
      for j in range(k):
        self.assign(elts[j], T.at(seq, const(j)), st)
      after = n - k
      mid = T.slice_(seq, const(k), None if not after else const(-after), None)
      self.assign(elts[k], self.alloc(st, ('list', mid)), st)
      for j in range(after):
        self.assign(elts[k + 1 + j], T.at(seq, const(j - after)), st)
      return
    es = self.iter_elems(st, v, len(elts))
    for e, x in zip(elts, es):
      self.assign(e, x, st)

  def iter_elems(self, st, v, n):
    """Exactly n elements of an iterable."""
    container = v if v.op in ('ref', 'iref') and self.kind(st, v) == 'list' else None
    seq = self.iter_seq(st, v)
    ln = T.length(seq)
    self.primitive_error(st, bnot(T.eq(ln, const(n))), 'ValueError')
    if ln.op == 'c' and T.cval(ln) != n:
      self.raise_(st, 'ValueError')
    if self.simp(st, T.eq(ln, const(n))) is not TRUE:
      # partial: unpacking fails unless the length is n
      seq = T.fn('ofLength', (seq, const(n)), seq.sort)
    return [self.interior(st, container, const(j), T.at(seq, const(j))) for j in range(n)]

  def s_Return(self, s, st):
    v = NONE if s.value is None else self.ev(s.value, st)
    self.fr.exits.append(Exit('return', st, v, self.loc))
    return None

  def s_Break(self, s, st):
    self.fr.exits.append(Exit('break', st, NONE))
    return None

  def s_Continue(self, s, st):
    self.fr.exits.append(Exit('continue', st, NONE))
    return None

  def s_If(self, s, st):
    c = self.truth(st, self.ev(s.test, st))
    return self.exec_branch(st, c, lambda x: self.exec_block(s.body, x),
                            lambda x: self.exec_block(s.orelse, x))

  def exec_branch(self, st, c, f1, f2):
    def g(f):
      def h(x):
        r = f(x)
        if r is None:
          raise PathDead()
        if r is not x:
          x.become(r)
        return TRUE
      return h
    try:
      self.branch(st, c, g(f1), g(f2))
    except PathDead:
      return None
    return st

  def s_Assert(self, s, st):
    c = self.truth(st, self.ev(s.test, st))
    self.raise_if(st, bnot(c), 'AssertionError')
    return st

  def s_Raise(self, s, st):
    if s.exc is None:
      name = getattr(self, 'current_exc', None) or 'Exception'
      self.raise_(st, name)
    self.raise_(st, self.exc_name(s.exc, st))

  def exc_name(self, e, st):
    if isinstance(e, ast.Call):
      f = self.ev(e.func, st)
    else:
      f = self.ev(e, st)
    if f.op == 'exc':
      return f.args[0]
    o = self.obj(f) if f.op == 'py' else None
    if o is not None and o.kind in ('btype', 'class'):
      return o.name
    return 'Exception'

  def s_Try(self, s, st):
    fr = self.fr
    saved_pc = st.pc
    st.pc = TRUE
    mark = len(fr.exits)
    self.lpcs.append((len(self.stack), saved_pc))
    try:
      return self.try_(s, st, saved_pc, mark)
    finally:
      self.lpcs.pop()

  def try_(self, s, st, saved_pc, mark):
    fr = self.fr
    self.explicit += 1
    try:
      r = self.exec_block(s.body, st)
      if r is not None and s.orelse:
        self.explicit -= 1
        try:
          r = self.exec_block(s.orelse, r)
        finally:
          self.explicit += 1
    finally:
      self.explicit -= 1
    exits = fr.exits[mark:]
    del fr.exits[mark:]
    ends = []
    if r is not None:
      ends.append(r)
    keep = []
    for e in exits:
      if e.kind != 'raise' or not s.handlers:
        keep.append(e)
        continue
      for h in s.handlers:
        names = self.handler_names(h, e.st)
        if names is None or any(self.exc_matches(e.value.args[0], n) for n in names):
          x = e.st
          self.activate(x)
          if h.name:
            self.bind(x, h.name, e.value)
          prev = getattr(self, 'current_exc', None)
          self.current_exc = e.value.args[0]
          m2 = len(fr.exits)
          r2 = self.exec_block(h.body, x)
          self.current_exc = prev
          keep.extend(fr.exits[m2:])
          del fr.exits[m2:]
          if r2 is not None:
            ends.append(r2)
          break
      else:
        keep.append(e)
    if s.finalbody:
      new = []
      for e in keep:
        self.activate(e.st)
        m2 = len(fr.exits)
        r2 = self.exec_block(s.finalbody, e.st)
        new.extend(fr.exits[m2:])
        del fr.exits[m2:]
        if r2 is not None:
          e.st = r2
          new.append(e)
      keep = new
      e2 = []
      for x in ends:
        self.activate(x)
        m2 = len(fr.exits)
        r2 = self.exec_block(s.finalbody, x)
        keep.extend(fr.exits[m2:])
        del fr.exits[m2:]
        if r2 is not None:
          e2.append(r2)
      ends = e2
    T.set_ge(())
    for e in keep:
      e.st.pc = band(saved_pc, e.st.pc)
      fr.exits.append(e)
    if not ends:
      return None
    out = self.join_states(ends)
    out.pc = band(saved_pc, out.pc)
    self.activate(out)
    return out

  s_TryStar = s_Try

  def join_states(self, states):
    out = states[-1]
    for s in reversed(states[:-1]):
      c = s.pc
      ge = tuple(f for f in s.ge if f in out.ge)
      T.set_ge(ge)
      heap = self.merge_heaps(out, c, s.heap, out.heap)
      pc = bor(s.pc, out.pc)
      known = {k: w for k, w in s.known.items() if out.known.get(k) == w}
      out = State(heap, pc, ge, known)
    return out

  def handler_names(self, h, st):
    if h.type is None:
      return None
    v = self.ev(h.type, st)
    vs = v.args if v.op == 'tup' else (v,)
    return [self.obj(x).name if x.op == 'py' else '?' for x in vs]

  def exc_matches(self, exc, name):
    if name in ('Exception', 'BaseException') or exc == name:
      return True
    for b in self.exc_bases(exc):
      if self.exc_matches(b, name):
        return True
    return False

  def exc_bases(self, exc):
    return self.B.EXC_BASES.get(exc, self.user_exc.get(exc, ()))

  user_exc = {}

  def s_FunctionDef(self, s, st):
    f = self.make_func(s, st, s.name)
    v = self.pyobj(f)
    for d in reversed(s.decorator_list):
      v = self.decorate(d, v, st)
    self.bind(st, s.name, v)
    return st

  def decorate(self, d, v, st):
    dv = self.ev(d, st)
    o = self.obj(dv)
    if o is not None and o.kind == 'builtin' and o.name in ('classmethod', 'staticmethod', 'property', 'abstractmethod'):
      if o.name == 'abstractmethod':
        return v
      return self.pyobj(Wrapped(o.name, v))
    inner = self.obj(v)
    if o is not None and o.kind == 'func' and o.qual == 'starks.numbertype.memoize' and self.primitive_memo:
      if inner is not None and inner.kind == 'func':
        inner.memo = True
        return v
    if o is not None and o.kind == 'builtin' and o.name == 'lru_cache':
      if inner is not None and inner.kind == 'func':
        inner.memo = True
        return v
    r = self.call(st, dv, [v], {})
    ro = self.obj(r)
    if ro is not None and inner is not None and ro.kind == 'func' and inner.kind == 'func' and ro is not inner:
      ro.wraps = inner
    return r

  def make_func(self, s, st, name):
    a = s.args
    defaults = [self.ev(d, st) for d in a.defaults]
    kwd = {x.arg: self.ev(d, st) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    fr = self.fr
    owner = fr.func
    mod = owner.module if isinstance(owner, (Func, Class)) else owner
    pre = owner.qual if isinstance(owner, (Func, Class)) else owner.name
    scopes = list(fr.scopes)
    if isinstance(owner, Class):
      scopes = scopes[:-1]
    f = Func(s, name, '%s.%s' % (pre, name), scopes, mod, defaults, kwd)
    if isinstance(owner, Class):
      f.cls = owner
    return f

  def s_ClassDef(self, s, st):
    fr = self.fr
    owner = fr.func
    mod = owner.module if isinstance(owner, (Func, Class)) else owner
    pre = owner.qual if isinstance(owner, (Func, Class)) else owner.name
    bases = [self.ev(b, st) for b in s.bases]
    c = Class(s.name, bases, {}, mod, '%s.%s' % (pre, s.name))
    c.node = s
    for b in bases:
      bo = self.obj(b)
      if bo is not None and bo.kind == 'btype' and bo.name in self.B.EXC_BASES:
        self.user_exc[s.name] = (bo.name,)
      elif bo is not None and bo.name in self.user_exc:
        self.user_exc[s.name] = (bo.name,)
    scope = self.alloc(st, ('scope', {}))
    self.fr = Frame(c, fr.scopes + [scope])
    try:
      r = self.exec_block(s.body, st)
    finally:
      self.fr = fr
    if r is None:
      return None
    c.ns = dict(self.cell(st, scope)[1])
    v = self.pyobj(c)
    for d in reversed(s.decorator_list):
      v = self.decorate(d, v, st)
    self.bind(st, s.name, v)
    return st

  def s_Import(self, s, st):
    for a in s.names:
      try:
        m = self.load_module(a.name)
      except Unsupported:
        continue
      if a.asname:
        self.bind(st, a.asname, self.pyobj(m))
      else:
        top = a.name.split('.')[0]
        self.bind(st, top, self.pyobj(self.load_module(top)))
    return st

  def s_ImportFrom(self, s, st):
    if s.level:
      mod = self.fr.func.module if isinstance(self.fr.func, (Func, Class)) else self.fr.func
      pkg = mod.name.split('.')[:-s.level] if not mod.path.endswith('__init__.py') else mod.name.split('.')
      name = '.'.join(pkg + ([s.module] if s.module else []))
    else:
      name = s.module
    if name == '__future__':
      return st
    try:
      m = self.load_module(name)
    except Unsupported as e:
      self.notes.append(str(e))
      return st
    for a in s.names:
      if a.name == '*':
        for n in getattr(m, 'star', ()):
          self.bind(st, n, self.module_attr(st, m, n))
        if m.scope is not None:
          for n, v in self.cell(st, m.scope)[1].items():
            if not n.startswith('_'):
              self.bind(st, n, v)
        continue
      v = self.module_attr(st, m, a.name)
      if v is None:
        try:
          v = self.pyobj(self.load_module(name + '.' + a.name))
        except Unsupported:
          c = self.contracts.get(name + '.' + a.name)
          if c is not None:
            self.hits.add(name + '.' + a.name)
            self.bind(st, a.asname or a.name, c[1])
            continue
          # an import that fails: names analysis (C24) reports it
          self.notes.append('%s has no %s' % (name, a.name))
          continue
      self.bind(st, a.asname or a.name, v)
    return st

  def module_attr(self, st, m, name):
    if m.ext is not None:
      return m.ext(self, name)
    return self.cell(st, m.scope)[1].get(name)

  def s_Delete(self, s, st):
    for t in s.targets:
      if isinstance(t, ast.Name):
        self.bind(st, t.id, unbound())
      elif isinstance(t, ast.Subscript):
        obj = self.ev(t.value, st)
        self.call_method(st, obj, '__delitem__', [self.ev_slice(t.slice, st)], {})
      else:
        raise Unsupported('del')
    return st

  def s_With(self, s, st):
    raise Unsupported('with')

  # loops
  def s_For(self, s, st):
    from . import loops
    return loops.for_stmt(self, s, st)

  def s_While(self, s, st):
    from . import loops
    return loops.while_stmt(self, s, st)

  def s_Match(self, s, st):
    subj = self.ev(s.subject, st)

    def go(k, x):
      if k == len(s.cases):
        return x
      case = s.cases[k]
      c = self.match_pat(case.pattern, subj, x)
      if case.guard is not None:
        raise Unsupported('match guard')
      return self.exec_branch(x, c, lambda y: self.exec_block(case.body, y), lambda y: go(k + 1, y))
    return go(0, st)

  def match_pat(self, p, v, st):
    if isinstance(p, ast.MatchValue):
      return self.truth(st, self.compare(st, ast.Eq(), v, self.ev(p.value, st)))
    if isinstance(p, ast.MatchSingleton):
      return T.eq(v, const(p.value))
    if isinstance(p, ast.MatchAs) and p.pattern is None:
      if p.name:
        self.bind(st, p.name, v)
      return TRUE
    if isinstance(p, ast.MatchOr):
      r = FALSE
      for q in p.patterns:
        r = bor(r, self.match_pat(q, v, st))
      return r
    raise Unsupported('match pattern')

  # ---- expressions
  def ev(self, e, st):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      raise Unsupported('expression %s' % type(e).__name__)
    ln = getattr(e, 'lineno', None)
    return m(e, st)

  def e_Constant(self, e, st):
    return const(e.value)

  def e_Name(self, e, st):
    return self.lookup(st, e.id)

  def e_NamedExpr(self, e, st):
    v = self.ev(e.value, st)
    self.assign(e.target, v, st)
    return v

  def e_Starred(self, e, st):
    raise Unsupported('starred')

  def e_Tuple(self, e, st):
    return self.mktuple(st, self.elts_seq(e.elts, st))

  def elts_seq(self, elts, st):
    if any(isinstance(x, ast.Starred) for x in elts):
      parts = []
      for x in elts:
        if isinstance(x, ast.Starred):
          parts.append(self.iter_seq(st, self.ev(x.value, st)))
        else:
          parts.append(T.lit([self.ev(x, st)]))
      return T.cat(parts)
    return T.lit([self.ev(x, st) for x in elts])

  def mktuple(self, st, seq):
    if seq.op == 'lit':
      return mk('tup', seq.args, 'tup')
    if seq.op == 'ite':
      return T.ite(seq.args[0], self.mktuple(st, seq.args[1]), self.mktuple(st, seq.args[2]))
    return mk('tupof', (self.freeze(st, seq),), 'tup')

  def e_List(self, e, st):
    return self.alloc(st, ('list', self.elts_seq(e.elts, st)))

  def e_Set(self, e, st):
    d = T.dempty('set')
    for x in e.elts:
      d = T.dset(d, self.key(st, self.ev(x, st)), TRUE)
    return self.alloc(st, ('set', d))

  def e_Dict(self, e, st):
    d = T.dempty('dict')
    for k, v in zip(e.keys, e.values):
      if k is None:
        o = self.ev(v, st)
        d = T.dupdate(d, self.dict_of(st, o))
        continue
      kk = self.key(st, self.ev(k, st))
      d = T.dset(d, kk, self.ev(v, st))
    return self.alloc(st, ('dict', d))

  def key(self, st, v):
    """A dictionary key: its frozen value."""
    return self.freeze(st, v)

  def dict_of(self, st, v):
    if v.op == 'ref':
      p = self.cell(st, v)
      if p[0] in ('dict', 'set'):
        return p[1]
    if v.op == 'iref':
      return self.iload(st, v)
    if isinstance(v.sort, tuple) and v.sort[0] in ('dict', 'set'):
      return v
    if v.op == 'ite':
      return T.ite(v.args[0], self.dict_of(st, v.args[1]), self.dict_of(st, v.args[2]))
    raise Unsupported('not a dict')

  def store_seq(self, st, ref, seq):
    """Replaces the contents of a mutable list."""
    if ref.op == 'ref':
      if ref.args[0] in self.frozen and self.cell(st, ref)[1] is not seq:
        self.note_frozen(st, ref)
      self.put(st, ref, ('list', seq))
    elif ref.op == 'iref':
      self.istore(st, ref, self.freeze(st, seq))
    elif ref.op == 'ite':
      c, a, b = ref.args
      sa, sb = self.seq_of(st, a), self.seq_of(st, b)
      self.store_seq(st, a, T.ite(c, seq, sa))
      self.store_seq(st, b, T.ite(c, sb, seq))
    elif T.is_seq(ref):
      raise Unsupported('update of a list held by value')
    else:
      raise Unsupported('update of %s' % (ref.sort,))

  def store_dict(self, st, ref, d):
    if ref.op == 'ref':
      if ref.args[0] in self.frozen:
        self.note_frozen(st, ref)
      self.put(st, ref, (self.cell(st, ref)[0], d))
    elif ref.op == 'iref':
      self.istore(st, ref, self.freeze(st, d))
    else:
      raise Unsupported('update of a dictionary held by value')

  def note_frozen(self, st, ref):
    raise Unsupported('update of a list that was copied by value')

  # operators
  def e_BinOp(self, e, st):
    a = self.ev(e.left, st)
    b = self.ev(e.right, st)
    return self.binop(st, e.op, a, b)

  def e_UnaryOp(self, e, st):
    v = self.ev(e.operand, st)
    return self.unop(st, e.op, v)

  def unop(self, st, op, v):
    if isinstance(op, ast.Not):
      return bnot(self.truth(st, v))
    if self.is_ite(v):
      return self.split(st, v, lambda s, x: self.unop(s, op, x))
    if isinstance(op, ast.USub):
      if T.is_arith(v):
        return T.neg(v)
      if v.sort == 'float':
        return self.B.fl(self, 'neg', v)
      return self.call_dunder(st, v, '__neg__', [])
    if isinstance(op, ast.UAdd):
      return v
    if isinstance(op, ast.Invert):
      return T.sub(T.neg(v), const(1))
    raise Unsupported('unary operator')

  def binop(self, st, op, a, b):
    if self.is_ite(a):
      return self.split(st, a, lambda s, x: self.binop(s, op, x, b))
    if self.is_ite(b):
      return self.split(st, b, lambda s, x: self.binop(s, op, a, x))
    return self.B.binop(self, st, op, a, b)

  def e_BoolOp(self, e, st):
    def go(k, s):
      v = self.ev(e.values[k], s)
      if k == len(e.values) - 1:
        return v
      c = self.truth(s, v)
      if isinstance(e.op, ast.And):
        return self.branch(s, c, lambda x: go(k + 1, x), lambda x: v if v.sort != 'bool' else FALSE)
      return self.branch(s, c, lambda x: v if v.sort != 'bool' else TRUE, lambda x: go(k + 1, x))
    return go(0, st)

  def e_Compare(self, e, st):
    def go(left, k, s):
      right = self.ev(e.comparators[k], s)
      v = self.compare(s, e.ops[k], left, right)
      if k == len(e.ops) - 1:
        return v
      c = self.truth(s, v)
      return self.branch(s, c, lambda x: go(right, k + 1, x), lambda x: FALSE)
    return go(self.ev(e.left, st), 0, st)

  def compare(self, st, op, a, b):
    if isinstance(op, ast.Is):
      return self.B.is_(self, st, a, b)
    if isinstance(op, ast.IsNot):
      return bnot(self.B.is_(self, st, a, b))
    if isinstance(op, (ast.In, ast.NotIn)):
      r = self.B.contains(self, st, b, a)
      return r if isinstance(op, ast.In) else bnot(r)
    if self.is_ite(a):
      return self.split(st, a, lambda s, x: self.compare(s, op, x, b))
    if self.is_ite(b):
      return self.split(st, b, lambda s, x: self.compare(s, op, a, x))
    return self.B.compare(self, st, op, a, b)

  def truth(self, st, v):
    if v.sort == 'bool':
      return v
    if self.is_ite(v):
      return self.split(st, v, lambda s, x: self.truth(s, x))
    return self.B.truth(self, st, v)

  def e_IfExp(self, e, st):
    c = self.truth(st, self.ev(e.test, st))
    return self.branch(st, c, lambda s: self.ev(e.body, s), lambda s: self.ev(e.orelse, s))

  def e_Lambda(self, e, st):
    return self.pyobj(self.make_func(e, st, '<lambda>'))

  def e_Attribute(self, e, st):
    return self.getattr(st, self.ev(e.value, st), e.attr)

  def e_Subscript(self, e, st):
    obj = self.ev(e.value, st)
    o = self.obj(obj) if obj.op == 'py' else None
    if o is not None and o.kind in ('btype', 'builtin', 'model') and not hasattr(o, 'getitem'):
      return obj    # List[int] and the like
    return self.getitem(st, obj, self.ev_slice(e.slice, st))

  def ev_slice(self, s, st):
    if isinstance(s, ast.Slice):
      return ('slice', None if s.lower is None else self.ev(s.lower, st),
              None if s.upper is None else self.ev(s.upper, st),
              None if s.step is None else self.ev(s.step, st))
    return self.ev(s, st)

  def getitem(self, st, obj, key):
    if self.is_ite(obj):
      return self.split(st, obj, lambda s, x: self.getitem(s, x, key))
    if isinstance(key, T.T) and self.is_ite(key):
      return self.split(st, key, lambda s, x: self.getitem(s, obj, x))
    return self.B.getitem(self, st, obj, key)

  def setitem(self, st, obj, key, v):
    if self.is_ite(obj):
      return self.split(st, obj, lambda s, x: (self.setitem(s, x, key, v), NONE)[1])
    return self.B.setitem(self, st, obj, key, v)

  def e_JoinedStr(self, e, st):
    parts = []
    for p in e.values:
      if isinstance(p, ast.Constant):
        parts.append(const(p.value))
      else:
        v = self.ev(p.value, st)
        spec = None
        if p.format_spec is not None:
          spec = self.ev(p.format_spec, st)
        parts.append(self.B.to_str(self, st, v, p.conversion, spec))
    return self.B.str_cat(parts)

  e_FormattedValue = None

  def e_ListComp(self, e, st):
    return self.comp(e, st, 'list')

  def e_GeneratorExp(self, e, st):
    ref = self.comp(e, st, 'list')
    return self.alloc(st, ('iter', self.seq_of(st, ref), const(0)))

  def e_SetComp(self, e, st):
    return self.comp(e, st, 'set')

  def e_DictComp(self, e, st):
    return self.comp(e, st, 'dict')

  def comp(self, e, st, kind):
    from . import loops
    return loops.comprehension(self, e, st, kind)

  def e_Yield(self, e, st):
    v = NONE if e.value is None else self.ev(e.value, st)
    if self.fr.yields is None:
      raise Unsupported('yield')
    self.B.list_append(self, st, self.fr.yields, v)
    return NONE

  def e_YieldFrom(self, e, st):
    v = self.ev(e.value, st)
    self.B.list_extend(self, st, self.fr.yields, v)
    return NONE

  def e_Await(self, e, st):
    raise Unsupported('await')

  # calls
  def e_Call(self, e, st):
    f = e.func
    if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
      return self.super_(st)
    if isinstance(f, ast.Attribute):
      obj = self.ev(f.value, st)
      args, kw = self.ev_args(e, st)
      return self.call_method(st, obj, f.attr, args, kw)
    fv = self.ev(f, st)
    o = self.obj(fv) if fv.op == 'py' else None
    if o is not None and o.kind == 'builtin' and getattr(o, 'raw', False):
      return o.fn(self, st, e)
    args, kw = self.ev_args(e, st)
    loc = self.loc
    r = self.call(st, fv, args, kw)
    self.loc = loc
    return r

  def ev_args(self, e, st):
    args, kw = [], {}
    for a in e.args:
      if isinstance(a, ast.Starred):
        seq = self.iter_seq(st, self.ev(a.value, st))
        if seq.op == 'ite':
          raise Unsupported('starred argument of varying length')
        if seq.op != 'lit':
          args.append(('*', seq))
        else:
          args.extend(seq.args)
      else:
        args.append(self.ev(a, st))
    for k in e.keywords:
      if k.arg is None:
        d = self.dict_of(st, self.ev(k.value, st))
        items = T.dconst_items(d)
        if items is None:
          raise Unsupported('** of symbolic dict')
        for kk, vv in items:
          kw[T.cval(kk)] = vv
      else:
        kw[k.arg] = self.ev(k.value, st)
    return args, kw

  def super_(self, st):
    f = self.fr.func
    cls = None
    x = f
    cls = getattr(f, 'cls', None)
    if cls is None:
      raise Unsupported('super() outside a method')
    selfname = f.node.args.args[0].arg
    self_ = self.lookup(st, selfname)
    return self.pyobj(self.B.Super(cls, self_))

  def call(self, st, f, args, kw):
    if self.is_ite(f):
      return self.split(st, f, lambda s, x: self.call(s, x, args, kw))
    if f.op == 'py':
      o = self.obj(f)
      if o is None:
        raise Unsupported('call of an unknown value')
      k = o.kind
      if k == 'func':
        return self.call_func(st, o, args, kw)
      if k == 'bound':
        return self.call(st, o.func, [o.self_] + list(args), kw)
      if k == 'boundname':
        return self.call_method(st, o.obj, o.name, args, kw)
      if k == 'class':
        return self.instantiate(st, f, o, args, kw)
      if k == 'builtin':
        return o.fn(self, st, args, kw)
      if k == 'btype':
        return self.B.call_type(self, st, o, args, kw)
      if k == 'model':
        return o.call(self, st, args, kw)
      if k == 'wrapped':
        return self.call(st, o.func, args, kw)
      raise Unsupported('call of %s' % k)
    k = self.kind(st, f)
    if k == 'inst':
      return self.call_dunder(st, f, '__call__', args, kw)
    if f.sort == 'poly':
      return self.B.poly_call(self, st, f, args)
    if isinstance(f.sort, tuple) and f.sort[0] == 'fun':
      # an unknown but pure function
      fa = tuple(self.freeze(st, a) for a in args)
      return T.fn('apply', (f,) + fa, f.sort[2])
    raise Unsupported('call of a %s value' % (k,))

  def call_dunder(self, st, v, name, args, kw=None):
    f = self.find_attr(st, v, name)
    if f is None:
      if self.explicit or True:
        self.raise_(st, 'TypeError')
    return self.call(st, f, [v] + list(args), kw or {})

  # attribute access
  def class_of(self, st, v):
    """The class (py term) of a value."""
    return self.B.class_of(self, st, v)

  def mro(self, c):
    out = [c]
    o = self.obj(c)
    for b in getattr(o, 'bases', ()):
      for x in self.mro(b):
        if x in out:
          out.remove(x)
        out.append(x)
    return out

  def class_attr(self, cls, name):
    for c in self.mro(cls):
      o = self.obj(c)
      if o.kind == 'class' and name in o.ns:
        return o.ns[name]
    return None

  def find_attr(self, st, v, name):
    """A class attribute (function) reachable from an instance, unbound."""
    if v.op == 'inst':
      return self.class_attr(v.args[0], name)
    if v.op == 'ref':
      p = self.cell(st, v)
      if p[0] == 'inst':
        return self.class_attr(p[1], name)
    if isinstance(v.sort, tuple) and v.sort[0] == 'inst':
      return self.class_attr(mk('py', (v.sort[1],), 'py'), name)
    return None

  def inst_class(self, st, v):
    if v.op == 'inst':
      return v.args[0]
    if v.op == 'ref':
      p = self.cell(st, v)
      return p[1] if p[0] == 'inst' else None
    if isinstance(v.sort, tuple) and v.sort[0] == 'inst':
      return mk('py', (v.sort[1],), 'py')
    return None

  def inst_field(self, st, v, name):
    if v.op == 'inst':
      if name in v.args[1]:
        return v.args[2][v.args[1].index(name)]
      return None
    if v.op == 'ref':
      return self.cell(st, v)[2].get(name)
    if v.op == 'at':
      r = T.fld(v, name)
      if r is not None:
        return r
    cls = mk('py', (v.sort[1],), 'py')
    s = self.fieldsort.get((cls, name))
    if s is None:
      return None
    return mk('fld', (v, name), s)

  def getattr(self, st, v, name, default=None):
    if self.is_ite(v):
      return self.split(st, v, lambda s, x: self.getattr(s, x, name, default))
    cls = self.inst_class(st, v)
    if cls is not None:
      x = self.inst_field(st, v, name)
      if x is not None:
        x = self.bound(st, x, name)
        if isinstance(x.sort, tuple) and x.sort[0] in ('seq', 'dict', 'set') and v.op == 'ref':
          return x
        return x
      if name == '__class__':
        return cls
      if name == '__dict__':
        raise Unsupported('__dict__')
      a = self.class_attr(cls, name)
      if a is not None:
        return self.bind_attr(st, a, v, cls)
      if default is not None:
        return default
      if self.stands_in(cls):
        return self.bind_attr(st, self.enclosing_attr(name), v, cls)
      self.raise_(st, 'AttributeError')
    if v.op == 'py':
      o = self.obj(v)
      if o.kind == 'module':
        x = self.module_attr(st, o, name)
        if x is None:
          try:
            x = self.pyobj(self.load_module(o.name + '.' + name))
          except Unsupported:
            if default is not None:
              return default
            self.raise_(st, 'AttributeError')
        return x
      if o.kind == 'class':
        if name == '__name__' and '__name__' not in o.ns:
          return const(o.name)
        if name == '__class__':
          return self.btypes['type']
        a = self.class_attr(v, name)
        if a is not None:
          return self.bind_class_attr(st, a, v)
        if name == '__doc__':
          return NONE
        if default is not None:
          return default
        self.raise_(st, 'AttributeError')
      if o.kind == 'func':
        if name in o.attrs:
          return o.attrs[name]
        if name == '__name__':
          return const(o.name)
        if name == '__class__':
          return self.btypes['function']
        if default is not None:
          return default
        raise Unsupported('function attribute %s' % name)
      if o.kind == 'model':
        r = o.get(self, st, name)
        if r is None:
          if default is not None:
            return default
          self.raise_(st, 'AttributeError')
        return r
      if o.kind in ('btype', 'builtin'):
        if name == '__name__':
          return const(o.name)
        real = self.B.PYTYPES.get(o.name) or getattr(builtins, o.name, None)
        if o.kind == 'btype' and isinstance(real, type) and not hasattr(real, name):
          if default is not None:
            return default
          self.raise_(st, 'AttributeError')
        return self.pyobj(BoundName(v, name))
      if o.kind == 'bound' and name == '__name__':
        return self.getattr(st, o.func, name)
    r = self.B.value_attr(self, st, v, name)
    if r is not None:
      return r
    if name == '__class__':
      return self.class_of(st, v)
    if self.B.has_method(self, st, v, name):
      return self.pyobj(BoundName(v, name))
    if v.sort in ('ring', 'poly') and default is None:
      return self.bind_attr(st, self.enclosing_attr(name), v, None)
    self.B.known_attr(self, st, v, name)
    if default is not None:
      return default
    self.raise_(st, 'AttributeError')

  def stands_in(self, cls):
    """Is this class written in a laws file (a stand-in for one of the repository's)?"""
    o = self.obj(cls)
    return o.kind == 'class' and o.qual.startswith('laws.')

  def enclosing_attr(self, name):
    """A stand-in passed as self to a method behaves, for an attribute it was not
    given, as an instance of the class that method belongs to."""
    for f in reversed(self.stack):
      c = f.cls
      if c is not None and not c.qual.startswith('laws.'):
        todo = [c]
        while todo:
          k = todo.pop(0)
          if k.kind == 'class':
            if name in k.ns:
              return k.ns[name]
            todo[:0] = [self.obj(b) for b in k.bases]
        break
    raise Unsupported('attribute %s of a stand-in' % name)

  def bind_attr(self, st, a, v, cls):
    o = self.obj(a) if a.op == 'py' else None
    if o is None:
      return a
    if o.kind == 'func':
      return self.pyobj(Bound(a, v))
    if o.kind == 'wrapped':
      if o.how == 'property':
        return self.call(st, o.func, [v], {})
      if o.how == 'classmethod':
        return self.pyobj(Bound(o.func, cls))
      return o.func
    if o.kind == 'model' and getattr(o, 'binds', False):
      return self.pyobj(Bound(a, v))
    return a

  def bind_class_attr(self, st, a, cls):
    o = self.obj(a) if a.op == 'py' else None
    if o is not None and o.kind == 'wrapped':
      if o.how == 'classmethod':
        return self.pyobj(Bound(o.func, cls))
      return o.func
    return a

  def setattr(self, st, v, name, x):
    if self.is_ite(v):
      return self.split(st, v, lambda s, y: (self.setattr(s, y, name, x), NONE)[1])
    if v.op == 'ref':
      p = self.cell(st, v)
      if p[0] == 'inst':
        d = dict(p[2])
        d[name] = x
        self.put(st, v, ('inst', p[1], d))
        return
    if v.op == 'py':
      o = self.obj(v)
      if o.kind == 'class':
        o.ns[name] = x
        return
      if o.kind == 'func':
        o.attrs[name] = x
        return
      if o.kind == 'module':
        raise Unsupported('assignment to a module attribute')
    raise Unsupported('attribute assignment on %s' % (v.sort,))

  def call_method(self, st, obj, name, args, kw):
    if self.is_ite(obj):
      return self.split(st, obj, lambda s, x: self.call_method(s, x, name, args, kw))
    if name == '__class__':
      return self.call(st, self.getattr(st, obj, name), args, kw)
    cls = self.inst_class(st, obj)
    if cls is not None:
      x = self.inst_field(st, obj, name)
      if x is not None:
        return self.call(st, x, args, kw)
      a = self.class_attr(cls, name)
      if a is not None:
        o = self.obj(a) if a.op == 'py' else None
        if o is not None and o.kind == 'func':
          return self.call(st, a, [obj] + list(args), kw)
        return self.call(st, self.bind_attr(st, a, obj, cls), args, kw)
      if name.startswith('__') and name in ('__init__',):
        return NONE
      if self.stands_in(cls):
        return self.call(st, self.bind_attr(st, self.enclosing_attr(name), obj, cls), args, kw)
      self.raise_(st, 'AttributeError')
    if obj.op == 'py':
      o = self.obj(obj)
      if o.kind == 'model' and hasattr(o, 'method'):
        return o.method(self, st, name, args, kw)
      if o.kind == 'btype':
        return self.B.type_method(self, st, o, name, args, kw)
      return self.call(st, self.getattr(st, obj, name), args, kw)
    return self.B.method(self, st, obj, name, args, kw)

  # instances
  law_tree = None

  def is_immutable(self, c):
    o = self.obj(c)
    if o.immutable is None:
      o.immutable = True
      for k in self.mro(c):
        ko = self.obj(k)
        if ko.kind != 'class':
          if ko.kind == 'btype' and ko.name not in ('object', 'Exception', 'ABC'):
            o.immutable = False
          continue
        if not self.node_immutable(ko):
          o.immutable = False
    return o.immutable

  def node_immutable(self, ko):
    for f in ko.node.body:
      if isinstance(f, ast.FunctionDef) and f.name != '__init__':
        for n in ast.walk(f):
          if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
              isinstance(n.value, ast.Name) and n.value.id not in ('cls',):
            return False
          if isinstance(n, ast.Name) and n.id in ('setattr',):
            return False
    fields = set()
    for f in ko.node.body:
      if isinstance(f, ast.FunctionDef) and f.name == '__init__':
        for n in ast.walk(f):
          if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            fields.add(n.attr)
    return not (fields & self.foreign_stores())

  def foreign_stores(self):
    """Attribute names stored on something other than self anywhere in the loaded code."""
    if not hasattr(self, '_foreign'):
      s = set()

      def scan(tree):
        for n in ast.walk(tree):
          if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            if not (isinstance(n.value, ast.Name) and (n.value.id == 'self' or n.value.id[:1].isupper())):
              s.add(n.attr)
      if self.law_tree is not None:
        scan(self.law_tree)
      for dirp, dirs, files in os.walk(self.repo):
        dirs[:] = [d for d in dirs if d not in ('.git', 'test', '__pycache__', 'build')]
        for fn in files:
          if fn.endswith('.py') and not fn.startswith('test_'):
            try:
              scan(ast.parse(self.read(os.path.join(dirp, fn))))
            except (SyntaxError, UnicodeDecodeError):
              continue
      self._foreign = s
    return self._foreign

  def instantiate(self, st, cterm, o, args, kw):
    if getattr(o, 'model', None) is not None:
      return o.model.call(self, st, args, kw)
    c = self.contracts.get(o.qual[5:] if o.qual.startswith('misc.') else o.qual)
    if c is not None:
      self.visited.setdefault('contract ' + o.qual, 0)
      self.hits.add(o.qual)
      return self.call_contract(st, o, c[1], args, kw)
    ref = self.alloc(st, ('inst', cterm, {}))
    init = self.class_attr(cterm, '__init__')
    if init is not None:
      self.call(st, init, [ref] + list(args), kw)
    elif args or kw:
      if not any(self.obj(b).kind == 'btype' for b in self.mro(cterm)):
        self.raise_(st, 'TypeError')
    if self.is_immutable(cterm):
      p = self.cell(st, ref)
      names = tuple(sorted(p[2]))
      return self.mkinst(cterm, names, [p[2][n] for n in names])
    return ref

  # function calls
  def bind_params(self, st, o, args, kw):
    a = o.node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    kw = dict(kw)
    pos = list(args)
    star = next((k for k, x in enumerate(pos) if isinstance(x, tuple)), None)
    if star is not None:
      # f(*symbolic): the parameters are taken from the front of the sequence
      pre = pos[:star]
      if star != len(pos) - 1:
        raise Unsupported('positional arguments after a symbolic *')
      seq = pos[star][1]
      need = len(params) - len(pre)
      if a.vararg is None:
        pos = pre + [T.at(seq, const(j)) for j in range(need)]
      elif need <= 0:
        env[a.vararg.arg] = self.mktuple(st, T.cat([T.lit(pre[len(params):]), seq]))
        pos = pre[:len(params)]
      else:
        raise Unsupported('symbolic *args')
    if len(pos) > len(params) and a.vararg is None:
      self.raise_(st, 'TypeError')
    for n, v in zip(params, pos):
      env[n] = v
    if a.vararg is not None and a.vararg.arg not in env:
      env[a.vararg.arg] = mk('tup', tuple(pos[len(params):]), 'tup')
    rest = params[len(pos):]
    nd = len(o.defaults)
    dmap = dict(zip(params[len(params) - nd:], o.defaults)) if nd else {}
    for n in rest:
      if n in kw:
        env[n] = kw.pop(n)
      elif n in dmap:
        env[n] = dmap[n]
      else:
        self.raise_(st, 'TypeError')
    for x in a.kwonlyargs:
      if x.arg in kw:
        env[x.arg] = kw.pop(x.arg)
      elif x.arg in o.kwdefaults:
        env[x.arg] = o.kwdefaults[x.arg]
      else:
        self.raise_(st, 'TypeError')
    if a.kwarg is not None:
      d = T.dempty('dict')
      for k, v in kw.items():
        d = T.dset(d, const(k), v)
      env[a.kwarg.arg] = self.alloc(st, ('dict', d))
    elif kw:
      self.raise_(st, 'TypeError')
    return env

  def call_func(self, st, o, args, kw):
    c = self.contracts.get(o.qual[5:] if o.qual.startswith('misc.') else o.qual)
    if c is not None:
      mode, spec = c
      active = any(f is o or f.qual == o.qual for f in self.stack)
      if mode == 'always' or active:
        self.visited.setdefault('contract ' + o.qual, 0)
        self.hits.add(o.qual)
        return self.call_contract(st, o, spec, args, kw)
    if o.memo:
      return self.call_memo(st, o, args, kw)
    return self.call_plain(st, o, args, kw)

  def call_contract(self, st, o, spec, args, kw):
    if callable(spec):
      return spec(self, st, args, kw)
    return self.call(st, spec, args, kw)

  def call_memo(self, st, o, args, kw):
    env = self.bind_params(st, o, args, kw)
    key = (id(o.node), id(o.module)) + tuple(sorted(((n, self.key(st, v)) for n, v in env.items()),
                                                    key=lambda p: p[0]))
    key = (o.qual,) + key
    r = self.memo_cache.get(key)
    if r is not None:
      return r
    before = set(st.heap)
    mark = len(self.fr.exits)
    r = self.call_plain(st, o, [], env)
    for cid in st.heap:
      if cid not in before:
        self.base.setdefault(cid, st.heap[cid])
    if r.op == 'py':
      self.memo_cache[key] = r
    return r

  def call_plain(self, st, o, args, kw):
    if len(self.stack) > MAXDEPTH:
      raise Unsupported('call depth')
    n_active = max(sum(1 for f in self.stack if f.node is o.node and f.scopes == o.scopes),
                   sum(1 for f in self.stack if f.node is o.node) - 6)
    if n_active >= 2 and not self.decided_recursion(st, o):
      if self.unwind and n_active < self.unwind:
        pass
      elif self.unwind and not self.loopstack:
        # a run at one shape says nothing about deeper recursion
        self.assumed = band(self.assumed, bnot(band(self.outer_pc(), st.pc)))
        self.assumed_dead += 1
        raise PathDead()
      else:
        raise Recursion(o)
    env = self.bind_params(st, o, args, kw)
    where = '%s:%d' % (os.path.relpath(o.module.path, self.repo) if getattr(o.module, 'path', None) else '?',
                       getattr(o.node, 'lineno', 0))
    self.visited[o.qual] = where
    scope = self.alloc(st, ('scope', env))
    saved = self.fr, st.pc, self.loc
    fr = Frame(o, o.scopes + [scope])
    self.fr = fr
    self.pcs.append(st.pc)
    st.pc = TRUE
    self.stack.append(o)
    gen = None
    if o.is_gen:
      gen = self.alloc(st, ('list', T.lit(())))
      fr.yields = gen
    try:
      if isinstance(o.node, ast.Lambda):
        try:
          v = self.ev(o.node.body, st)
          fr.exits.append(Exit('return', st, v))
        except PathDead:
          pass
      else:
        r = self.exec_block(o.node.body, st)
        if r is not None:
          fr.exits.append(Exit('return', r, NONE))
    finally:
      self.fr = saved[0]
      self.stack.pop()
      self.pcs.pop()
      self.loc = saved[2]
    return self.finish_call(st, fr, saved[1], gen)

  def decided_recursion(self, st, o):
    """Recursion whose branches were all decided on constants unrolls."""
    if st.pc is not TRUE:
      return False
    k = next(i for i, f in enumerate(self.stack) if f.node is o.node)
    if any(n > k for n in self.loopstack):
      return False
    return all(pc is TRUE for pc in self.pcs[k + 1:]) and all(pc is TRUE for d, pc in self.lpcs if d > k)

  def finish_call(self, st, fr, saved_pc, gen=None):
    rets = [e for e in fr.exits if e.kind == 'return']
    raises = [e for e in fr.exits if e.kind == 'raise']
    T.set_ge(())
    for e in raises:
      e.st.pc = band(saved_pc, e.st.pc)
      self.fr.exits.append(e)
    if not rets:
      raise PathDead()
    out = rets[-1].st
    v = rets[-1].value
    for e in reversed(rets[:-1]):
      c = e.st.pc
      ge = tuple(f for f in e.st.ge if f in out.ge)
      T.set_ge(ge)
      v = self.mval(out, c, e.value, v)
      heap = self.merge_heaps(out, c, e.st.heap, out.heap)
      pc = bor(e.st.pc, out.pc)
      known = {k: w for k, w in e.st.known.items() if out.known.get(k) == w}
      out = State(heap, pc, ge, known)
    out_pc = out.pc
    st.become(out)
    st.pc = band(saved_pc, out_pc) if raises else saved_pc
    self.activate(st)
    if gen is not None:
      return self.alloc(st, ('iter', self.seq_of(st, gen), const(0)))
    return v

  # iteration helpers
  def iter_seq(self, st, v):
    """The sequence of elements an iteration over v yields (consuming iterators)."""
    return self.B.iter_seq(self, st, v)


DUNDER = {
    ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
    ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.Pow: '__pow__',
    ast.LShift: '__lshift__', ast.RShift: '__rshift__', ast.BitAnd: '__and__',
    ast.BitOr: '__or__', ast.BitXor: '__xor__', ast.MatMult: '__matmul__',
}


_ref_memo = {}


def has_ref(v):
  r = _ref_memo.get(v)
  if r is None:
    r = _has_ref(v)
    _ref_memo[v] = r
  return r


def _has_ref(x):
  if isinstance(x, T.T):
    if x.op in ('ref', 'iref'):
      return True
    if x.op in ('c', 'sym', 'bv', 'py'):
      return False
    return any(has_ref(a) if isinstance(a, T.T) else _has_ref(a) for a in x.args)
  if isinstance(x, tuple):
    return any(has_ref(a) if isinstance(a, T.T) else _has_ref(a) for a in x)
  return False


def map_args(a, f):
  if isinstance(a, T.T):
    return f(a)
  if isinstance(a, tuple):
    return tuple(map_args(x, f) for x in a)
  return a


def drop_unbound(v):
  if v.op == 'ite':
    a, b = drop_unbound(v.args[1]), drop_unbound(v.args[2])
    if a.op == 'fn' and a.args[0] == 'unbound':
      return b
    if b.op == 'fn' and b.args[0] == 'unbound':
      return a
    if a is v.args[1] and b is v.args[2]:
      return v
    return T.ite(v.args[0], a, b)
  return v
